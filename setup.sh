#!/bin/bash
# Warms the build cache; every check rebuilds what it needs by itself.
set -e
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd /repo && go build -o "$d/" ./cmd/capslock ./cmd/capslock-git-diff)
(cd /verif/harness && go build -o "$d/" ./vmon ./vlib && go build -race -o "$d/vlibrace" ./vlib)
echo ready
