#!/bin/bash
# Generates codecs for the package(s) in m/ with the generator of the current directory, then runs the test there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cp -r "$here/m" "$t/m"
mkdir -p "$t/gen"
cat > "$t/gen/main.go" <<'G'
package main

import (
	"fmt"
	"os"

	"github.com/iv-menshenin/valyjson/generator"
)

func main() {
	g := generator.New(os.Args[1])
	if err := g.Parse(); err != nil {
		fmt.Println("ERR:", err)
		os.Exit(2)
	}
	g.BuildDecoders()
	g.BuildEncoders()
	g.FixImports()
	g.Print(os.Args[1] + ".out.go")
}
G
echo "{\"Replace\":{\"$repo/zzdemo/main.go\":\"$t/gen/main.go\"}}" > "$t/ov.json"
(cd "$repo" && go build -overlay "$t/ov.json" -o "$t/vgen" ./zzdemo) || exit 2
sed 's/^module .*/module demo/' "$repo/test/tests/fill/go.mod" > "$t/m/go.mod"
cp "$repo/test/tests/fill/go.sum" "$t/m/go.sum"
cd "$t/m"
for f in $(grep -rlE --include='*.go' '^[[:space:]]*//[[:space:]]*json:' . | sort); do
  "$t/vgen" "$t/m/${f#./}" || { echo "generation failed: $f"; exit 1; }
done
go test -vet=off -count=1 ./...
