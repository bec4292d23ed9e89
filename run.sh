#!/bin/bash
# run.sh ID [options of vh]: builds from /repo's current tree and runs the check of one property.
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT" || exit 2
bash "$ROOT/build.sh" >&2 || exit 2
export ASAN_SYMBOLIZER_PATH=$(command -v llvm-symbolizer || command -v llvm-symbolizer-18)
bin=$(cat "$ROOT/build/current")
id=$1; shift
if [ -f "$id" ]; then exec "$bin" --root "$ROOT" --replay "$id" "$@"; fi
exec "$bin" --root "$ROOT" --prop "$id" "$@"
