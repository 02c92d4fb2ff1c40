#!/bin/bash
# Checks that the verifier builds (each check builds it again: nothing is left behind).
. "$(dirname "$(readlink -f "$0")")/env.sh"
cd "$(dirname "$(readlink -f "$0")")/engine" && GOFLAGS=-mod=mod go build -o /dev/null .
