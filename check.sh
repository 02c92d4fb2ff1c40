#!/bin/bash
# check.sh <ID> | check.sh native <ID> [contract] | check.sh verify <ID> [contract]
# Builds the verifier from /verif and runs it against /repo's current working tree.
. "$(dirname "$(readlink -f "$0")")/env.sh"
export VERIF_DIR="$(dirname "$(readlink -f "$0")")"
tmp="$(mktemp -d /tmp/verifeng.XXXXXX)"
trap '/bin/rm -rf "$tmp"' EXIT
if ! (cd "$VERIF_DIR/engine" && GOFLAGS=-mod=mod go build -o "$tmp/engine" .) ; then
  echo "cannot build the engine"; exit 2
fi
case "$1" in
  native|verify) "$tmp/engine" "$@" ;;
  *) "$tmp/engine" check "$1" ;;
esac
exit $?
