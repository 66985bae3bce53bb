#!/bin/bash
# check.sh setup | check.sh ID [quick|thorough] | check.sh replay FILE
# Builds the simulator together with /repo's current working tree and runs it.
cd "$(dirname "$0")" || exit 3
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$PWD/sim/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET LD_LIBRARY_PATH
mkdir -p sim/target || exit 3
# Cargo compares file times; a tree put in place with old times must be rebuilt all the same.
now=$( { find /repo/src /repo/Cargo.toml vendor simrt sim/src -type f -print0 | sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum)
if [ "$now" != "$(cat sim/target/tree.sum 2>/dev/null)" ]; then
  rm -f sim/target/tree.sum
  (cd sim && cargo clean --offline -p klavier-core -p serdo -p simrt -p klavier-sim) > /dev/null 2>&1
fi
if ! (cd sim && cargo build --offline --locked) > sim/target/build.log 2>&1; then
  tail -40 sim/target/build.log
  echo "the simulator does not build with this tree"
  exit 3
fi
echo "$now" > sim/target/tree.sum
bin=sim/target/debug/klavier-sim
case "$1" in
  setup) exit 0 ;;
  replay) exec "$bin" replay "$2" ;;
  tool) shift; exec "$bin" "$@" ;;
  C[0-9][0-9]) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
  *) echo "usage: check.sh setup | ID [quick|thorough] | replay FILE"; exit 2 ;;
esac
