#!/bin/bash
# interp.sh ARG...: runs ctverify under Miri for the platform $CTV_TARGET
# Environment: CTV_BORROWS (aliasing rules, Tree Borrows if unset), CTV_MIRIFLAGS (further flags).
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export MIRI_SYSROOT="$CTV_DIR/work/miri/$CTV_TARGET"
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks ${CTV_BORROWS--Zmiri-tree-borrows} ${CTV_MIRIFLAGS:-}"
ulimit -v 8000000
cd "$CTV_DIR/harness" || exit 2
if [ "$1" = setup ]; then
  mkdir -p "$MIRI_SYSROOT" && cargo miri setup --target "$CTV_TARGET" || exit 2
  set -- list
fi
exec cargo miri run -q --offline --locked --target "$CTV_TARGET" --target-dir "$CTV_DIR/target/miri" --bin ctverify -- "$@"
