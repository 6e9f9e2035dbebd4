#!/bin/bash
# check.sh PROP TIER | check.sh --replay FILE | check.sh --selftest [PROP...]
# Builds the simulator from /repo's working tree in a scratch directory and
# explores one property.
cd "$(dirname "$0")" || exit 2
V=$(pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
W=$(mktemp -d /tmp/vsim-XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
(cd sim/ctl && go build -o "$W/ctl" .) || exit 2
export VSIM_VERIF="$V" VSIM_WORK="$W/w"
mkdir -p "$W/w"
case "$1" in
--replay) "$W/ctl" replay "$2" ;;
--selftest) shift; "$W/ctl" selftest "$@" ;;
--seeds) shift; "$W/ctl" seeds "$@" ;;
*) "$W/ctl" check "$1" "${2:-quick}" ;;
esac
exit $?
