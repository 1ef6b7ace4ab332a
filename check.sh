#!/bin/bash
# check.sh <ID> [--replay FILE | harness options]: rebuild the monitors from
# /repo's working tree and run one property's check.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/tools/build.sh" || exit 3
ID="$1"; shift
if [ "${1:-}" = "--replay" ]; then
  F="$2"; shift 2
  read -r W I S T < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["workload"],d["idx"],d["case_seed"],d["tier"])' "$F")
  exec "$BIN" --property "$ID" --root "$HERE" --tier "$T" --case "$W" --idx "$I" --cseed "$S" "$@"
fi
exec python3 "$HERE/tools/supervise.py" "$BIN" "$ID" "$HERE" "$@"
