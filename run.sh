#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   (rebuilds from /repo's working tree, then explores)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
export PATH="/usr/local/bin:/usr/local/cargo/bin:/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export TZ=UTC RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL RUSTC_WRAPPER
id="$1"; tier="${2:-quick}"
case "$id" in
  T*) crate=te ;;
  Q*) crate=ql ;;
  C*) crate=conc ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
log="$VERIF_ROOT/target/build-$crate.log"
mkdir -p "$VERIF_ROOT/target" "$VERIF_ROOT/evidence" "$VERIF_ROOT/replay"
if ! cargo build --offline --manifest-path "$crate/Cargo.toml" --target-dir "$VERIF_ROOT/target/$crate" >"$log" 2>&1; then
  echo "build of the $crate harness failed:" >&2; tail -40 "$log" >&2; exit 2
fi
case "$id" in *build) exit 0 ;; esac
exec "$VERIF_ROOT/target/$crate/debug/$crate" "$id" "$tier"
