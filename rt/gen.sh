#!/bin/bash
# Regenerates the re-exports of the stand-in packages (run when the Go toolchain changes).
cd "$(dirname "$0")" && export GOWORK=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
# (ForkLock is declared by hand)
for p in log os net time syscall; do go run ./cmd/shimgen $p v$p || exit 1; done
gofmt -l -w . ; go vet ./v...
