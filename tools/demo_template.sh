#!/bin/bash
# Runs the demonstration test beside this file inside package PKG of the tree
# in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$repo/PKG/zz_demo_test.go\":\"$here/demo_test.go\"}}" >"$o"
go test -vet=off -overlay "$o" -count=1 -run 'TestDemo' "./PKG"
