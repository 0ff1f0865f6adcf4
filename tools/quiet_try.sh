#!/bin/bash
# quiet_try.sh NAME...   builds and tests each behaviour-preserving edit in the scratch copy /tmp/plant
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/plant/target CARGO_TERM_COLOR=never
cd /tmp/plant || exit 2
for n in ${*:-$(cd /verif/quiet; ls | sed 's/\.diff$//')}; do
  git checkout -q -- . && git apply "/verif/quiet/$n.diff" || { echo "$n does not apply"; continue; }
  find src -name '*.rs' -exec touch {} +
  o=$(cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1)
  echo "$n: $(echo "$o" | grep -c ' \.\.\. ok') ok, failed: $(echo "$o" | grep ' \.\.\. FAILED' | tr '\n' ' ')$(echo "$o" | grep -A4 -m1 '^error\[')"
done
git checkout -q -- .
