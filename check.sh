#!/bin/bash
# ./check.sh <property> <quick|thorough>: decide one property against /repo's current working tree
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./env.sh
if ! ./build.sh >/tmp/govc-build.$$ 2>&1; then cat /tmp/govc-build.$$; /bin/rm -f /tmp/govc-build.$$; echo "building govc failed"; exit 2; fi
/bin/rm -f /tmp/govc-build.$$
exec ./.bin/govc check -verif "$V" -prop "$1" -tier "${2:-quick}"
