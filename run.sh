#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay FILE] [--only SCENARIO] [--limit SECONDS]
# Builds the check of one property from /repo's current working tree and runs it.
# Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Else: error.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1; shift
tier=${VERIF_TIER:-quick}
args=()
while [ $# -gt 0 ]; do
  case $1 in
    --tier) tier=$2; shift 2;;
    --replay) args+=(-replay "$(readlink -f "$2")"); shift 2;;
    --only) args+=(-only "$2"); shift 2;;
    --limit) args+=(-limit "$2"); shift 2;;
    *) echo "unknown argument $1" >&2; exit 2;;
  esac
done
[ "$tier" = thorough ] || tier=quick
lc=$(echo "$id" | tr A-Z a-z)
[ -d "$here/rt/checks/$lc" ] || { echo "no check for $id" >&2; exit 2; }
export PATH="$PATH:/usr/local/bin" HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOFLAGS= GONOSUMDB=* GOFLAGS=-mod=mod
unset GOROOT GOOS GOARCH
umask 022
scratch=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
work=$(mktemp -d /dev/shm/verif.XXXXXXXX 2>/dev/null) || work=$(mktemp -d /tmp/verifw.XXXXXXXX)
trap 'rm -rf "$scratch" "$work"' EXIT
trap 'exit 143' TERM INT
chmod 755 "$scratch" "$work"
mode=()
[ -f "$here/rt/checks/$lc/CONC" ] && mode=(-conc) && grep -q shown "$here/rt/checks/$lc/CONC" && mode+=(-shown)
(cd "$here/rt" && GOWORK=off go build -trimpath -o "$scratch/instr" ./cmd/instr) || { echo "cannot build the instrumenter" >&2; exit 2; }
export GOFLAGS=
GOWORK= "$scratch/instr" -repo "$repo" -out "$scratch" -rt "$here/rt" -gocui "$here/gocui" "${mode[@]}" || { echo "instrumentation failed" >&2; exit 2; }
tags=()
grep -rqsE --include=*.go '\.Try(R)?Lock\(' "$repo" && tags=(-tags trylocks)
(cd "$here/rt" && GOWORK="$scratch/go.work" go build -trimpath "${tags[@]}" -o "$scratch/check" "./checks/$lc") || { echo "cannot build the check against $repo" >&2; exit 2; }
export VERIF_SRC="$scratch/src"
"$scratch/check" -tier "$tier" -work "$work" -out "${VERIF_OUT:-$here/evidence}/replay" -known "$here/known_findings.txt" -evidence "${VERIF_OUT:-$here/evidence}/$id.json" "${args[@]}"
