#!/bin/bash
# ref.sh: takes the generator of /repo as the reference of the search for failing inputs (vgo/replay.go).
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VGO_REPO:-/repo}
rm -rf "$here/vgo/ref/generator"
mkdir -p "$here/vgo/ref"
cp "$repo/go.mod" "$repo/go.sum" "$here/vgo/ref/"
rsync -a --exclude='*_test.go' "$repo/generator" "$here/vgo/ref/"
