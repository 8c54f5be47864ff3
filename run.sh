#!/bin/bash
# Builds the simulator against /repo's working tree and runs one check.
#   run.sh build | run.sh <property> <quick|thorough> | run.sh replay <file> | run.sh determinism <property> <runs>
# Exit: 0 held, 1 violation, 2 the check could not be run.
root=$(cd "$(dirname "$0")" && pwd)
export GVAS_SIM_ROOT="$root" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p "$root/evidence"
# build <target directory> <cargo options>
build() {
  dir=$1
  shift
  for p in release checked; do
    if ! out=$(cargo build --offline --quiet --locked --manifest-path "$root/sim/Cargo.toml" --target-dir "$root/sim/target$dir" --profile $p "$@" 2>&1); then
      echo "HARNESS-ERROR: the simulator does not build against /repo" >&2
      echo "$out" | tail -40 >&2
      exit 2
    fi
  done
}
case "$1" in
  build)
    build "" && build /json --features json
    exit 0
    ;;
  replay) prop=$(sed -n 's/^property //p' "$2" | head -1) ;;
  determinism) prop=$2 ;;
  *) prop=$1 ;;
esac
# The library's JSON support is an optional feature; only this check turns it on.
if [ "$prop" = C15 ]; then
  dir=/json
  build $dir --features json
else
  dir=
  build ""
fi
# No process may take more than this (KB): a run that needs more is a failed run.
ulimit -v 4000000
bin="$root/sim/target$dir/release/gvas-sim"
case "$1" in
  replay|determinism) exec "$bin" "$@" ;;
  *) exec "$bin" check "$1" "${2:-quick}" ;;
esac
