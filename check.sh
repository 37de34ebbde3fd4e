#!/bin/bash
# usage: check.sh PROPERTY TIER     explore one property on /repo's working tree
#        check.sh replay FILE       re-run one recorded counterexample
#        check.sh build MODE DIR    build the harness into DIR
# Rebuilds the harness against /repo as it is now: instrumented copies of its
# sources (see harness/instr) are laid over it at compile time, so nothing in
# /repo is touched.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/go/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
repo=${VERIF_REPO:-/repo}

build() { # mode dir
  local mode=$1 dir=$2
  ( cd "$here/harness" &&
    go run ./instr -repo "$repo" -mode "$mode" -shim "$here/harness/shim" -out "$dir" &&
    go build -overlay "$dir/overlay.json" ${3:+$3} -o "$dir/harness" . ) || return 1
}

case "$1" in
build) build "$2" "$3"; exit $? ;;
replay)
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$2") ;;
*) prop=$1; tier=${2:-${VERIF_TIER:-quick}} ;;
esac

mode=fuel; race=
case "$prop" in
C23|C24|C50) mode=sched race=-race ;;
esac
dir=$(mktemp -d "${TMPDIR:-/tmp}/gosips-verif-XXXXXX") || exit 3
trap 'rm -rf "$dir"' EXIT
build "$mode" "$dir" "$race" || { echo "build failed" >&2; exit 3; }
if [ "$1" = replay ]; then "$dir/harness" replay "$2"; exit $?; fi
cd "$here" || exit 3
"$dir/harness" check -prop "$prop" -tier "$tier" -kf "$here/KNOWN_FINDINGS.txt" \
  -evidence "$here/evidence/$prop.json" -cex "$here/evidence/cex"
