#!/bin/bash
# Builds everything once, which shows that the tools are there and fills the build cache.
cd "$(dirname "$0")" || exit 1
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
work=$(mktemp -d) || exit 1
trap 'rm -rf "${work:?}"' EXIT
mkdir -p evidence
cd harness && go build -o "$work/vmon" ./vmon && go run ./noisegen -repo /repo -out "$work" && go build -race -o "$work/vmonr" ./vmon
