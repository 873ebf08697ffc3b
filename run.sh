#!/bin/bash
# run.sh setup | run.sh <property> [--tier thorough ...]   (cwd: anywhere)
# Builds the simulation harness against /repo's working tree, then runs one check.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TERM_COLOR=never
mkdir -p "$here/target"
# cargo decides by mtime; make sure a source whose content changed is seen whatever its mtime says
python3 "$here/tools/stale.py" /repo "$here/target/src.sha" || true
if ! (cd "$here/harness" && cargo build --offline >"$here/target/build.log" 2>&1); then
  grep -E "^error" -A12 "$here/target/build.log" | head -60
  echo "harness build failed (full log $here/target/build.log)"
  exit 2
fi
[ "$1" = setup ] && exit 0
prop="$1"; shift
tier=(--tier "${VERIF_TIER:-quick}")
case " $* " in *" --tier "*) tier=();; esac
exec "$here/target/debug/dst" check "$prop" "${tier[@]}" --seed "${VERIF_SEED:-1}" --verif "$here" "$@"
