#!/bin/bash
# check.sh <property> [tier]: builds the harness from /repo's working tree and decides one property.
# Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough, default quick).
set -u
ID="$1"
cd "$(dirname "$0")" || exit 2
export CTV_DIR="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_TARGET_DIR
SEED="${VERIF_SEED:-1}"
TIER="${2:-${VERIF_TIER:-quick}}"
JOBS="$(nproc)"
EV="$PWD/evidence/$ID.json"
mkdir -p evidence work
LOG="$PWD/work/build-$ID.log"

build() { # profile
  local flag=""
  [ "$1" = release ] && flag="--release"
  if ! cargo build --manifest-path harness/Cargo.toml --offline --locked --target-dir "$PWD/target" $flag >"$LOG" 2>&1; then
    cat "$LOG" >&2
    # The schemas of the harness are valid, and it uses the fields of the Parquet types by their IDL names and
    # types: if the libraries themselves compile, the macros break those schemas (C20) or the Parquet types
    # differ from the IDL (C11).
    local where=
    [ "$ID" = C20 ] && where='^ *--> src/'
    [ "$ID" = C11 ] && where='^ *--> src/(parquet_table|props/parquet|props/tool).rs'
    if [ -n "$where" ] && grep -Eq "$where" "$LOG" && cargo check --manifest-path /repo/Cargo.toml --offline --target-dir "$PWD/target/repo" -q >/dev/null 2>&1; then
      mkdir -p work/replays
      cp "$LOG" work/replays/$ID-build.log
      echo '{"property": "'"$ID"'", "tier": "'"$TIER"'", "seed": '"$SEED"', "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the harness, which uses every type by its declared fields, is compiled first", "samples": ["harness/src"]}, "wall_s": 0, "violations": 1}' >"$EV"
      echo "the generated types do not fit their schemas: the harness does not compile"
      echo "VIOLATION property=$ID replay=$PWD/work/replays/$ID-build.log"
      exit 1
    fi
    echo "check.sh: the harness does not build against /repo" >&2
    exit 2
  fi
}

# share of the sub-checks' base case counts (ctverify list); about 10 to 20 s of search on 8 cores in the
# quick tier, some minutes per build in the thorough tier
if [ "$TIER" = thorough ]; then
  case "$ID" in C15) PCT=700 ;; C18) PCT=300 ;; C05) PCT=1000 ;; C20) PCT=2000 ;; *) PCT=1500 ;; esac
else
  case "$ID" in C15) PCT=1000 ;; C18) PCT=300 ;; C05) PCT=1500 ;; *) PCT=3000 ;; esac
fi

run() { # binary, further arguments
  local bin="$1"
  shift
  "$bin" run "$ID" --tier "$TIER" --seed "$SEED" --jobs "$JOBS" --percent "$PCT" --evidence "$EV" "$@"
}

# ---- C28, C29: the same cases in other builds and in the interpreter Miri

# builds in the background: name, target, RUSTFLAGS, arguments
other() {
  local name="$1" target="$2" flags="$3"
  shift 3
  (
    export RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="$flags" CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="$PWD/harness/i686/ld.sh"
    cargo build --manifest-path harness/Cargo.toml --offline --locked --target "$target" --target-dir "$PWD/target/$name" "$@" >"$PWD/work/build-$ID-$name.log" 2>&1
    echo $? >"$PWD/work/build-$ID-$name.rc"
  ) &
}
interpreter() { # name, target
  (
    export CTV_TARGET="$2"
    harness/interp.sh setup >"$PWD/work/build-$ID-$1.log" 2>&1
    echo $? >"$PWD/work/build-$ID-$1.rc"
  ) &
}
# Did the build succeed? If it fails in the libraries for another platform only, that is a violation of C29.
built() { # name
  local log="$PWD/work/build-$ID-$1.log"
  [ "$(cat "$PWD/work/build-$ID-$1.rc" 2>/dev/null)" = 0 ] && return
  cat "$log" >&2
  if [ "$ID" = C29 ] && grep -Eq '^ *--> /repo/' "$log"; then
    mkdir -p work/replays
    cp "$log" "work/replays/$ID-$1.log"
    echo '{"property": "'"$ID"'", "tier": "'"$TIER"'", "seed": '"$SEED"', "level": "exploration", "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the libraries and the harness are compiled for each platform first", "samples": ["'"$1"'"]}, "wall_s": 0, "violations": 1}' >"$EV"
    echo "the libraries compile for this platform, but not for $1"
    echo "VIOLATION property=$ID replay=$PWD/work/replays/$ID-$1.log"
    exit 1
  fi
  echo "check.sh: the build $1 failed" >&2
  exit 2
}
stage=0
# one stage of the search, with the evidence of the previous ones: variant, seconds, binary
stage() {
  local variant="$1" secs="$2" bin="$3" merge=()
  SEED=$((SEED + 1000 * stage))
  [ $stage -gt 0 ] && cp "$EV" "$PWD/work/$ID-$stage.json" && merge=(--merge "$PWD/work/$ID-$stage.json")
  stage=$((stage + 1))
  "$bin" run "$ID" --tier "$TIER" --seed "$SEED" --jobs "$JOBS" --percent 400 --secs "$secs" --variant "$variant" --evidence "$EV" "${merge[@]}"
}
must() {
  "$@"
  local rc=$?
  [ $rc -eq 0 ] || exit $rc
}
interpreted() { # target, seconds
  export CTV_TARGET="$1" CTV_CHILD="$PWD/harness/interp.sh"
  stage "-$1" "$2" ./target/debug/ctverify
  local rc=$?
  if [ $rc -eq 3 ]; then
    # ended under Stacked Borrows, but not under Tree Borrows: everything under Tree Borrows then
    CTV_BORROWS=-Zmiri-tree-borrows must stage "-$1" "$2" ./target/debug/ctverify
  elif [ $rc -ne 0 ]; then
    exit $rc
  fi
  unset CTV_CHILD
}
S=1
[ "$TIER" = thorough ] && S=12
if [ "$ID" = C28 ]; then
  build debug
  T=x86_64-unknown-linux-gnu
  other asan $T "-Zsanitizer=address --cfg ctv_sanitize"
  other tsan $T "-Zsanitizer=thread --cfg ctv_sanitize" -Zbuild-std
  other msan $T "-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg ctv_sanitize" -Zbuild-std
  interpreter miri $T
  wait
  built asan
  built msan
  built tsan
  built miri
  export CTV_NO_AS_LIMIT=1 TSAN_OPTIONS=halt_on_error=1
  export CTV_NO_AS_LIMIT=1 ASAN_OPTIONS=detect_leaks=0,allocator_may_return_null=1 MSAN_OPTIONS=allocator_may_return_null=1
  must stage -asan $((45 * S)) ./target/asan/$T/debug/ctverify
  must stage -msan $((45 * S)) ./target/msan/$T/debug/ctverify
  # concurrent and nested operations only
  CTV_MAIN=1 CTV_PART="C25 first" must stage -tsan $((15 * S)) ./target/tsan/$T/debug/ctverify
  CTV_PART="C25 sequences" must stage -tsan $((10 * S)) ./target/tsan/$T/debug/ctverify
  interpreted $T $((120 * S))
  exit 0
fi
if [ "$ID" = C29 ]; then
  build debug
  other i686 i686-unknown-linux-gnu "" -Zbuild-std
  interpreter s390x s390x-unknown-linux-gnu
  [ "$TIER" = thorough ] && interpreter powerpc powerpc-unknown-linux-gnu
  wait
  built i686
  built s390x
  must stage -i686 $((40 * S)) ./target/i686/i686-unknown-linux-gnu/debug/ctverify
  # C28 looks for undefined behaviour
  export CTV_BORROWS=-Zmiri-disable-stacked-borrows CTV_MIRIFLAGS=-Zmiri-disable-validation
  interpreted s390x-unknown-linux-gnu $((100 * S))
  if [ "$TIER" = thorough ]; then
    built powerpc
    interpreted powerpc-unknown-linux-gnu $((60 * S))
  fi
  exit 0
fi

build debug
if [ "$ID" = C20 ]; then
  exec ./target/debug/ctverify programs --tier "$TIER" --seed "$SEED" --jobs "$JOBS" --percent "$PCT" --evidence "$EV"
fi
run ./target/debug/ctverify
rc=$?
[ $rc -ne 0 ] && exit $rc

# other cases without overflow checks and debug assertions, fully optimised; outside C05 a fifth as many in the
# quick tier
[ "$ID" != C05 ] && [ "$TIER" != thorough ] && PCT=$((PCT / 5))
SEED=$((SEED + 1000))
build release
cp "$EV" "$PWD/work/$ID-debug.json"
run ./target/release/ctverify --variant release --merge "$PWD/work/$ID-debug.json"
exit $?
