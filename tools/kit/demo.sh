#!/bin/bash
# exit 0: the property holds on the code in the current directory; builds and runs main.go beside this file
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" "$d/tmp"
cp "$here"/*.go "$d/src/"
printf 'module demo\n\ngo 1.24\n\nrequire github.com/signintech/pdft v0.0.0\n\nreplace github.com/signintech/pdft => %s\n' "$repo" > "$d/src/go.mod"
export GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local TMPDIR="$d/tmp"
cd "$d/src" && go build RACE -o ../demo . && timeout 200 ../demo
