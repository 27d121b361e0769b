#!/bin/bash
# check.sh <property> quick|thorough   build from /repo's working tree and decide one property
# check.sh replay <file>               re-execute a replay file
# check.sh build                       build only
# Exit: 0 held, 1 VIOLATION, anything else an error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export CARGO_NET_OFFLINE=true
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1
export VERIF_SEED="${VERIF_SEED:-1}"
unset RUSTFLAGS RUSTC_WRAPPER

# build <target directory> <cargo arguments>
build() {
  local target="$1" log="$1/build-$$.log" rc
  shift
  mkdir -p "$target"
  (cd "$here/sim" && cargo build --release --offline --target-dir "$target" "$@") >"$log" 2>&1
  rc=$?
  if [ $rc -ne 0 ]; then
    grep -A8 "^error" "$log" | head -60
    rm -f "$log"
    echo "build failed"
    exit 2
  fi
  rm -f "$log"
}
# the simulator, and the command-line tool
build_all() { build "$here/target" --workspace; }
# the simulator with every edge of the code under test a scheduling point
build_edges() { RUSTC_WRAPPER="$here/tools/rustc-edges.sh" build "$here/target/edges" --bin dst; }

dst="$here/target/release/dst"
kind="$1"
[ "$kind" = replay ] && grep -q '"property": *"P17"' "$2" && kind=P17
case "$kind" in
  build) build_all; build_edges; exit 0 ;;
  P17) build_edges; dst="$here/target/edges/release/dst" ;;
  *) build_all ;;
esac
case "$1" in
  replay) exec "$dst" replay "$2" --verif "$here" ;;
  *) exec "$dst" check --property "$1" --tier "${2:-quick}" --verif "$here" ${3:+--runs "$3"} ;;
esac
