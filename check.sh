#!/bin/bash
# check.sh ID: decides one property against /repo's working tree.
# check.sh --replay FILE: re-evaluates a stored case.
# check.sh --build: only builds.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS="-mod=mod"
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_HOME=$here
work=$(mktemp -d /tmp/vcheck-bin.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work

race=()
case "$1" in
  C11) race=(-race) ;;
  --replay) grep -q '"property": *"C11"' "$2" && race=(-race) ;;
esac
# The checks look at the number of data races themselves, also of ones that
# were seen before.
export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"

build() {
  ( cd "$here/harness" && go build "${race[@]}" -o "$work/vprop" ./vprop ) >"$work/build.log" 2>&1 || {
    echo "CHECK-ERROR: build of the harness against /repo failed" >&2
    tail -40 "$work/build.log" >&2
    exit 2
  }
}

build_cmds() {
  ( cd /repo && GOFLAGS=-mod=readonly go build -o "$work/" ./cmd/hcldec ./cmd/hclfmt ./cmd/hclspecsuite ) >"$work/build.log" 2>&1 || {
    echo "CHECK-ERROR: build of the commands failed" >&2
    tail -40 "$work/build.log" >&2
    exit 2
  }
  export VERIF_BIN=$work
}

case "$1" in
  --build)
    build
    race=(-race); build
    build_cmds
    exit 0 ;;
  --replay)
    build; build_cmds
    "$work/vprop" replay "$2"
    exit $? ;;
  C41|C42|C46)
    build_cmds ;;
esac
build
"$work/vprop" check "$1"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) exit 2 ;;
esac
