#!/bin/bash
# Rebuilds the compiler driver (if needed) and re-extracts the MIR dump of /repo's current tree.
# usage: extract.sh [REPO]   (dump goes to build/dump)
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${1:-/repo}"
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER RUSTUP_TOOLCHAIN RUSTC
B="${VERIF_BUILD:-$HERE/build}"
mkdir -p "$B/dump"
exec 9>"$B/.lock"; flock 9
SYS="$(rustc +nightly --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib:${LD_LIBRARY_PATH:-}"
( cd "$HERE/driver" && CARGO_TARGET_DIR="$B/driver" cargo +nightly build --release --offline -q ) >"$B/driver.log" 2>&1 || { cat "$B/driver.log" >&2; exit 2; }
T="$B/target"
rm -f "$B"/dump/*.json
# force the workspace members (and only them) through the driver again
for k in core_nft index_icrc7 origyn_icrc7_cmdlinetools; do
  rm -rf "$T/debug/build/$k" "$T"/debug/.fingerprint/$k-* 2>/dev/null
done
cd "$REPO" || exit 2
MIRDUMP_OUT="$B/dump" RUSTC_WORKSPACE_WRAPPER="$B/driver/release/mirdump" CARGO_TARGET_DIR="$T" CARGO_PROFILE_DEV_DEBUG=0 \
  cargo +nightly check --locked --offline -q --lib --bins -p core_nft -p index_icrc7 -p origyn_icrc7_cmdlinetools >"$B/check.log" 2>&1
rc=$?
if [ $rc -ne 0 ]; then tail -40 "$B/check.log" >&2; exit 2; fi
for k in core_nft index_icrc7 origyn_icrc7_cmdlinetools; do
  [ -s "$B/dump/$k.json" ] || { echo "no dump for $k" >&2; exit 2; }
done
exit 0
