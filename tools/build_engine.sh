#!/bin/bash
# Builds /verif/bin/symgo from /verif/engine, offline.
set -e
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
d=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$d/bin"
cd "$d/engine" && go build -o "$d/bin/symgo.tmp.$$" . && mv "$d/bin/symgo.tmp.$$" "$d/bin/symgo"
