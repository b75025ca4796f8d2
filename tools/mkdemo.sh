#!/bin/bash
# mkdemo.sh ID PKG [go test flags]: demo.sh (and the mock, for core) of a planted bug
R="$(cd "$(dirname "$0")/.." && pwd)"; D="$R/seeded/$1"; mkdir -p "$D"
sed -e "s#@PKG@#$2#g" -e "s#@FLAGS@#${3:-}#" "$R/tools/demo/demo.sh" > "$D/demo.sh"
[ "$2" = core ] && cp "$R/tools/demo/mock_test.go" "$D/"
true
