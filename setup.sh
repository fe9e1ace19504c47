#!/bin/bash
# setup.sh: the verifier must build and its solver must answer.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d /tmp/vgo-bin.XXXXXX)
trap 'rm -rf "$t"' EXIT
cd "$here/vgo"
go vet .
go build -o "$t/vgo" .
[ "$(echo '(assert false)(check-sat)' | z3 -in)" = unsat ]
mkdir -p "$here/evidence"
