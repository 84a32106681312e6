#!/bin/bash
# bash /verif/check.sh <property>: rebuilds the commands and the monitors from
# the current working tree of /repo and runs the monitors for one property.
set -u
prop="${1:?usage: check.sh <property>}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOWORK=off GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod
base="${TMPDIR:-/tmp}"
scratch=$(mktemp -d "$base/vmon-$prop-XXXXXXXX") || exit 3
cleanup() { chmod -R u+rwX "$scratch" 2>/dev/null; rm -rf "$scratch"; }
trap cleanup EXIT
trap 'exit 3' INT TERM HUP
mkdir -p "$scratch/bin" "$scratch/tmp"
export VMON_SCRATCH="$scratch" TMPDIR="$scratch/tmp"
export VMON_CLI="$scratch/bin/capslock" VMON_GITDIFF="$scratch/bin/capslock-git-diff"
fail() { echo "check error: $*"; exit 3; }
(cd /repo && go build -o "$scratch/bin/" ./cmd/capslock ./cmd/capslock-git-diff) || fail "building /repo"
(cd /verif/harness && go build -o "$scratch/bin/vmon" ./vmon) || fail "building monitors"
case "$prop" in
C02|C06|C08|C09|C11|C12|C15|C20|C23)
  (cd /verif/harness && go build -o "$scratch/bin/vlib" ./vlib) || fail "building library driver"
  export VMON_LIB="$scratch/bin/vlib" ;;
esac
case "$prop" in
C12)
  (cd /verif/harness && go build -race -o "$scratch/bin/vlibrace" ./vlib) || fail "building library driver with race detector"
  export VMON_LIBRACE="$scratch/bin/vlibrace" ;;
esac
"$scratch/bin/vmon" "$prop"
rc=$?
exit $rc
