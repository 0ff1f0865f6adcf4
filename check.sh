#!/bin/bash
# check.sh ID [--tier quick|thorough] [--seed N] ...   decide one property on /repo's working tree
# check.sh replay FILE                                 re-run a recorded violation
# check.sh build                                       only build
# Exit: 0 held on everything explored, 1 violation, 2 the machinery itself failed.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/.build
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
bin=bellsim; features=()
case " $* " in *" C22 "* | *C22-seed* | *C22-build*) bin=bellsim-gen; features=(--features gen) ;; esac
build() {
  (cd /verif/sim && cargo build --offline --locked --message-format short --bin "$bin" "${features[@]}") >"$CARGO_TARGET_DIR/build.log" 2>&1
}
(
  flock 9
  # Cargo decides by modification time; a copied or reset tree can be changed and still look old.
  h=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
  if [ "$h" != "$(cat "$CARGO_TARGET_DIR/repo.hash" 2>/dev/null)" ]; then
    rm -f /verif/.build/repo.hash
    if [ -d "$CARGO_TARGET_DIR/x86_64-unknown-linux-gnu" ]; then
      (cd /verif/sim && cargo clean --offline -p bellframe -p bellsim) >/dev/null 2>&1
    fi
  fi
  if ! build; then
    # C22's feature of the crate does not compile, though the crate does without it
    if [ $bin = bellsim-gen ] && [ "$1" != build ] && grep -qE "^(\.\./\.\./)?/?repo/src/.*error" "$CARGO_TARGET_DIR/build.log"; then
      exit 3
    fi
    grep -E "error|warning: unused" "$CARGO_TARGET_DIR/build.log" | head -20 >&2
    echo "check.sh: the build failed (see $CARGO_TARGET_DIR/build.log)" >&2
    exit 2
  fi
  echo "$h" >"$CARGO_TARGET_DIR/repo.hash"
) 9>"$CARGO_TARGET_DIR/lock"
rc=$?
if [ $rc = 3 ]; then
  mkdir -p /verif/replays
  cp "$CARGO_TARGET_DIR/build.log" /verif/replays/C22-build.log
  echo "violation: does-not-compile: the crate does not compile with its cc_lib_gen feature: $(grep -m1 error "$CARGO_TARGET_DIR/build.log")"
  echo "VIOLATION property=C22 replay=/verif/replays/C22-build.log"
  exit 1
fi
[ $rc = 0 ] || exit 2
exe=/verif/.build/x86_64-unknown-linux-gnu/debug/$bin
case "$1" in
build) exit 0 ;;
replay) case "$2" in *C22-build.log) echo "not reproduced: the crate compiles with its cc_lib_gen feature"; exit 0 ;; esac; exec "$exe" "$@" ;;
selfcheck | run | list) exec "$exe" "$@" ;;
*) exec "$exe" check "$@" --root /verif ;;
esac
