#!/bin/bash
# Brings build/ up to date with /repo's working tree: the derived workspace, the MIR server and
# the metadata (with MIR) of every crate. Prints nothing unless it fails.
V=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_BUILD=${VERIF_BUILD:-$V/build}
mkdir -p "$VERIF_BUILD"
exec 9>"$VERIF_BUILD/lock"; flock 9
L=$VERIF_BUILD/build.log; : > "$L"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=nightly CARGO_INCREMENTAL=0
unset CARGO_ENCODED_RUSTFLAGS
VERIF_WS=$VERIF_BUILD/ws python3 "$V/tools/mkws.py" >>"$L" 2>&1 || { tail -30 "$L"; exit 1; }
(cd "$V/mirsrv" && CARGO_TARGET_DIR=$VERIF_BUILD/mirsrv RUSTFLAGS="" RUSTC_WRAPPER= cargo build --release --offline >>"$L" 2>&1) || { tail -30 "$L"; exit 1; }
(cd "$V/probe" && [ -f "$VERIF_BUILD/probe.args" ] || touch "$V/probe/src/lib.rs"
 cd "$V/probe" && CARGO_TARGET_DIR=$VERIF_BUILD/target \
  RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums" \
  RUSTC_WRAPPER=$V/tools/rustc_wrap.sh PROBE_ARGS=$VERIF_BUILD/probe.args cargo check --offline >>"$L" 2>&1) || { grep -E '^(error|warning: unused)' -A5 "$L" | tail -60; exit 1; }
exit 0
