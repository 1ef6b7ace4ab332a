#!/bin/bash
# build everything the checks use (offline); run once before the checks
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
. "$HERE/tools/build.sh" || exit 1
echo "built $BIN"
