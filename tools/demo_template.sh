#!/bin/bash
# Runs the demonstration test beside this file inside the package it concerns (overlay; /repo is not written).
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
PKG=@PKG@
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
sed -E "s#^([ \t]*(use[ \t]+)?)\./#\1$R/#" "$R/go.work" > "$T/go.work"
grep -q functions/golang/teamshooter "$T/go.work" || echo "use $R/functions/golang/teamshooter" >> "$T/go.work"
cp "$R/go.work.sum" "$T/" 2>/dev/null
{
  echo '{"Replace": {'
  for f in "$R/$PKG"/*_test.go; do [ -e "$f" ] && echo "\"$f\": \"\","; done
  echo "\"$R/$PKG/zz_demo_test.go\": \"$D/demo_test.go\""
  echo '}}'
} > "$T/overlay.json"
export GOWORK=$T/go.work GOPROXY=off GOFLAGS=-buildvcs=false GOTOOLCHAIN=local
cd "$R" && go test -c -vet=off -o "$T/demo.test" -overlay "$T/overlay.json" "./$PKG" || exit 3
cd "$T" && timeout 120 ./demo.test -test.run 'TestDemo' -test.count=1 -test.timeout 100s
