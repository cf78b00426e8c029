#!/bin/bash
# usage: check.sh ID [driver flags]   (tier from VERIF_TIER, seed from VERIF_SEED)
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p out/bin evidence
id=$1; shift
(cd tool && go build -o ../out/bin/driver.$$ . && mv ../out/bin/driver.$$ ../out/bin/driver) || exit 2
if [ "$id" = build ]; then exit 0; fi
if [ "$id" = replay ]; then exec out/bin/driver -replay "$@"; fi
exec out/bin/driver -id "$id" "$@"
