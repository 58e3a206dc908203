#!/bin/bash
# Builds the harness against /repo's working tree. Prints the path of the binary.
here=$(cd "$(dirname "$0")" && pwd)
verif=$(dirname "$here")
export HOME=${HOME:-/root}
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${PBT_TARGET:-$verif/target}
log=$CARGO_TARGET_DIR/build.log
mkdir -p "$CARGO_TARGET_DIR"
cd "$here" || exit 2
# rebuild whenever the contents of the sources differ from those last built, whatever their times say
repo=${PBT_REPO:-/repo}
now=$(cd "$repo" && find . -name target -prune -o -name .git -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/sources.sha" 2>/dev/null)" ]; then
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/{stratumv2,noiseexplorer_nx,pbt}-*
fi
if RUSTFLAGS="--cfg verif_hooks -Awarnings" cargo build --release --offline >"$log" 2>&1; then :
elif RUSTFLAGS="-Awarnings" cargo build --release --offline >"$log.nohooks" 2>&1; then :
else
  echo "harness does not build:" >&2; tail -60 "$log.nohooks" >&2; exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/sources.sha"
echo "$CARGO_TARGET_DIR/release/pbt"
