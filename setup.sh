#!/bin/bash
# Builds everything once so that the checks find their build cache warm.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export PATH="$PATH:/usr/local/bin" HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on
unset GOROOT GOOS GOARCH
umask 022
mkdir -p "$here/evidence/replay"
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
(cd "$here/rt" && GOFLAGS=-mod=mod GOWORK=off go build -trimpath -o "$scratch/instr" ./cmd/instr) || exit 2
export GOFLAGS=
for mode in "" -conc; do
  out="$scratch/out$mode"
  mkdir -p "$out"
  GOWORK= "$scratch/instr" -repo "$repo" -out "$out" -rt "$here/rt" -gocui "$here/gocui" $mode || exit 2
  for d in "$here"/rt/checks/c[0-9]*; do
    if [ -f "$d/CONC" ]; then m=-conc; else m=; fi
    [ "$m" = "$mode" ] || continue
    ls "$d"/*.go >/dev/null 2>&1 || continue
    (cd "$here/rt" && GOWORK="$out/go.work" go build -trimpath -o "$scratch/check" "./checks/$(basename "$d")") || exit 2
  done
done
exit 0
