#!/bin/bash
# builds govc from /verif/govc into /verif/.bin (ignored by git)
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .bin
cd govc && GOFLAGS=-mod=mod go build -o ../.bin/govc .
