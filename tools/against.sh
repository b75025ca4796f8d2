#!/bin/bash
# against.sh BUG CHECK...: runs quick checks against a planted bug, in a copy of /repo
R="$(cd "$(dirname "$0")/.." && pwd)"; W=$(mktemp -d /tmp/against.XXXXXX)
cp -a /repo "$W/repo"; git -C "$W/repo" apply "$R/seeded/$1/patch.diff" || exit 1
mkdir "$W/verif"; cp -a "$R"/{harness,instr,vsched,run.sh,kinds.txt,known_findings.txt} "$W/verif/"; mkdir -p "$W/verif/evidence"
b=$1; shift
for c in "$@"; do
  VERIF_REPO="$W/repo" "$W/verif/run.sh" check "$c" "${TIER:-quick}" > "$W/log" 2>&1; rc=$?
  echo "$b $c rc=$rc $(grep -c VIOLATION "$W/log") $(grep -v '^VIOLATION' "$W/log" | head -3 | cut -c1-200 | tr '\n' ' ')"
done
rm -rf "$W"
