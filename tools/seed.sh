#!/bin/bash
# seed.sh ID [--check]: confirm a planted bug of /verif/seeded in a scratch copy
# (/tmp/sc, made from /repo), then optionally run its check against it in /repo.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/tmp/sc/target CARGO_TERM_COLOR=never
[ -d /tmp/sc ] || cp -a /repo /tmp/sc
cd /tmp/sc && git fetch -q /repo main && git reset -q --hard FETCH_HEAD || exit 2
if [ "$2" != "--only-check" ]; then
bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean: $?"
git apply $S/patch.diff || exit 2
rm -rf target/debug/.fingerprint/curvo-*
cargo test --workspace --features serde,log --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtest.log 2>&1; echo "tests rc=$? $(grep -c '\.\.\. ok$' /tmp/seedtest.log) ok; failed: $(grep 'FAILED$' /tmp/seedtest.log | head -5 | tr '\n' ' ')"
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched: $? $(tail -1 /tmp/demo1.log | cut -c1-200)"
git reset -q --hard
fi
if [ -n "${2:-}" ]; then
  cd /repo && git apply $S/patch.diff && ( cd /verif; ./check.sh $P 2>&1 | cut -c1-300 | tail -5; echo "check rc ${PIPESTATUS[0]}" ); git -C /repo checkout -q -- .
fi
