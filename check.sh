#!/bin/bash
# check.sh PROPERTY [thorough]: builds the verifier, generates code from /repo's generator and verifies it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export VGO_HOME="$here"
t=$(mktemp -d /tmp/vgo-bin.XXXXXX)
trap 'rm -rf "$t"' EXIT
( cd "$here/vgo" && go build -o "$t/vgo" . ) || exit 2
"$t/vgo" check "$@"
