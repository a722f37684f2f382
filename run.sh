#!/bin/bash
# usage: run.sh setup | run.sh CHECK-ID | run.sh replay FILE
# Builds the harness against /repo's working tree and runs one check (tier and seed: VERIF_TIER, VERIF_SEED).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
what=${1:?usage: run.sh ID}
work=$(mktemp -d "${TMPDIR:-/tmp}/vh-build-XXXXXX") || exit 2
case $work in */vh-build-*) ;; *) exit 2 ;; esac
trap 'rm -rf "$work"' EXIT
# the go command may rewrite module files: let it work on copies
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
build() { (cd "$here/harness" && go build -modfile="$work/go.mod" "$@" -o "$work/vh" ./cmd/vh) >&2 || { echo "build failed" >&2; exit 2; }; }
# the race detector watches STFS and the harness, not the pure-Go sqlite
racef=(-race -gcflags=all=-d=checkptr=0 '-gcflags=modernc.org/sqlite/...=-race=false -d=checkptr=0' '-gcflags=modernc.org/libc/...=-race=false -d=checkptr=0')
race=()
case $what in C11) race=("${racef[@]}") ;; esac
if [ "$what" = replay ]; then
  if grep -q '"prop": *"C11"' "$2"; then race=("${racef[@]}"); fi
fi
[ "$what" = setup ] || build "${race[@]+"${race[@]}"}"
export VERIF_DIR=$here
case $what in
  setup) build; build "${racef[@]}" ;;
  replay) "$work/vh" replay "$2" ;;
  *) cd "$here" && "$work/vh" check "$what" ;;
esac
exit $?
