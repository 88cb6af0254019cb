#!/bin/bash
# prep.sh OUT : lays out the overlay source tree and generates OUT/build.ninja.
# The sources are copies kept in step with the working tree by content, so that
# what is rebuilt depends on what changed and not on time stamps.
set -e
OUT=$1
VERIF=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
SRC=$VERIF/build/src
mkdir -p "$OUT" "$SRC"
rsync -rlc --delete --delete-excluded --exclude=/_build --exclude=/.git --exclude=/docs \
  --include=/tachyon --include=/third_party --include=/bazel --include=/vendors \
  --include=/BUILD.bazel --exclude='/*' "$REPO/" "$SRC/"
for d in tachyon third_party bazel vendors BUILD.bazel; do ln -sfn "$SRC/$d" "$OUT/$d"; done
ln -sfn "$VERIF/harness" "$OUT/verif"
export CC=/usr/bin/gcc CXX=/usr/bin/g++
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0="*"
export PYTHONDONTWRITEBYTECODE=1
cd "$OUT"
exec /usr/bin/python3 "$VERIF/build_tools/gen.py" "$OUT" "$OUT"
