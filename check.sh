#!/bin/bash
# check.sh <property>|replay FILE|build : builds the library from /repo's working tree and runs a check
source "$(dirname "${BASH_SOURCE[0]}")/env.sh"
compile() { # profile
  (cd "$VERIF/harness" && cargo build --offline --quiet --profile "$1" --bin bvmon) >"$VERIF/out/build-$1.log" 2>&1
}
build() { # profile
  compile "$1" && return
  # Where the hook itself does not compile, the checks that need no hook run without it
  local flags=$RUSTFLAGS
  export RUSTFLAGS="--cap-lints=warn" CARGO_TARGET_DIR="$VERIF/target/plain"
  cp "$VERIF/out/build-$1.log" "$VERIF/out/build-$1-monitor.log"
  if compile "$1"; then
    echo "NOTE: built without the monitor hook, with it: $(grep -m1 '^error' "$VERIF/out/build-$1-monitor.log")"
  else
    tail -40 "$VERIF/out/build-$1.log"; echo "ERROR: the harness does not build against /repo"; exit 4
  fi
}
configure() { # name, toolchain, profile, features: one of the programs C30 compares
  local t="$VERIF/target/conf-$1" d=$3
  [ "$d" = dev ] && d=debug
  if (cd "$VERIF/configs" && RUSTUP_TOOLCHAIN=$2-x86_64-unknown-linux-gnu RUSTFLAGS=--cap-lints=warn cargo build --offline --quiet --profile "$3" --features "$4" --target-dir "$t") >"$VERIF/out/build-conf-$1.log" 2>&1; then
    cp -f "$t/$d/bvconf" "$VERIF/target/configs/$1"
  else
    echo "NOTE: the configuration $1 ($2 $3 features: $4) does not build: $(grep -m1 '^error' "$VERIF/out/build-conf-$1.log")"
  fi
}
configurations() {
  local aids=console_debug,ce_corruption_check types=glam,mint,geo,cgmath,nalgebra,serde f
  rm -rf "$VERIF/target/configs"; mkdir -p "$VERIF/target/configs"
  configure plain stable release "" &
  configure checked stable checked "" &
  configure dev stable dev "" &
  configure nightly nightly release "" &
  configure console_checked stable checked $aids,geo &
  configure console stable release console_debug &
  configure corruption stable release ce_corruption_check &
  configure console_all stable release $aids,$types &
  wait
  if [ "$VERIF_TIER" = thorough ]; then
    for f in glam mint geo cgmath nalgebra serde; do configure $f stable release $f & done
    configure nightly_console nightly checked $aids &
    configure corruption_geo stable release ce_corruption_check,geo &
    wait
  fi
}
run() { # profile, then what bvmon takes
  local p=$1; shift
  exec "$CARGO_TARGET_DIR/$p/bvmon" "$@"
}
mkdir -p "$VERIF/out" "$VERIF/evidence"
case "$1" in
  build) build checked; build release;;
  replay)
    if grep -q '"property": "C10"' "$2"; then build release; run release replay "$2"; fi
    if grep -q '"property": "C11"' "$2"; then build release; fi
    if grep -q '"property": "C30"' "$2"; then configurations; fi
    build checked; run checked replay "$2";;
  C11) build checked; build release; run checked check "$1";;
  C30) build checked; configurations; run checked check "$1";;
  C10) build release; run release check "$1";;
  *) build checked; run checked check "$1";;
esac
