#!/bin/bash
# run.sh check ID [quick|thorough] | replay FILE | list
# Builds everything from /repo's working tree in a scratch directory, runs, cleans up.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GO111MODULE=on CGO_ENABLED=1
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 3
cleanup() { rm -rf "$SCRATCH"; }
trap cleanup EXIT
export TMPDIR="$SCRATCH"

build() { # race|plain
  local kind="$1"
  mkdir "$SCRATCH/distclus" || return 3
  (cd "$ROOT/instr" && go build -o "$SCRATCH/instr" .) || return 3
  # go list may touch go.mod/go.sum: work from a copy of the sources
  mkdir "$SCRATCH/src" && (cd "$REPO" && find . -name .git -prune -o \( -name '*.go' -o -name go.mod -o -name go.sum \) -print0 |
    tar --null -T - -cf - ) | tar -C "$SCRATCH/src" -xf - || return 3
  "$SCRATCH/instr" "$SCRATCH/src" "$SCRATCH/distclus" || return 3
  sed -e "s#=> /repo#=> $SCRATCH/distclus#" -e "s#=> ../vsched#=> $ROOT/vsched#" "$ROOT/harness/go.mod" > "$SCRATCH/go.mod"
  cp "$REPO/go.sum" "$SCRATCH/go.sum"
  local flags=()
  if [ "$kind" = race ]; then
    flags=(-race '-gcflags=verif/vsched=-race=false -l' '-gcflags=verif/harness=-race=false -l')
  fi
  (cd "$ROOT/harness" && go build -modfile="$SCRATCH/go.mod" "${flags[@]}" -o "$SCRATCH/harness" .) || return 3
}

kind_of() { grep -h "^$1 " "$ROOT/kinds.txt" | awk '{print $2}'; }

case "${1:-}" in
check)
  ID="$2"; TIER="${3:-${VERIF_TIER:-quick}}"
  build "$(kind_of "$ID")" || { echo "build failed" >&2; exit 3; }
  "$SCRATCH/harness" check "$ID" "$TIER" "$ROOT"
  ;;
setup)
  # warm the build cache: one binary of each kind
  build plain || exit 3
  rm -rf "$SCRATCH/distclus" "$SCRATCH/src" "$SCRATCH/harness"
  build race || exit 3
  echo "setup done"
  ;;
replay)
  ID="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
  build "$(kind_of "$ID")" || exit 3
  "$SCRATCH/harness" replay "$2"
  ;;
build) # build KIND DIR: keep a binary for development
  build "$2" && cp "$SCRATCH/harness" "$3"
  ;;
*) echo "usage: run.sh check ID [quick|thorough] | replay FILE" >&2; exit 2 ;;
esac
