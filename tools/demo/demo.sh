#!/bin/bash
# Runs demo_test.go inside package @PKG@ of the current directory (nothing is written there).
D="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
{
  printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go"' "$PWD" "$D"
  [ -f "$D/mock_test.go" ] && printf ',"%s/@PKG@/zz_mock_test.go":"%s/mock_test.go"' "$PWD" "$D"
  printf '}}'
} > "$T/overlay.json"
timeout 280 go test -vet=off -count=1 @FLAGS@ -overlay "$T/overlay.json" -run '^TestDemo$' ./@PKG@
