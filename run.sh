#!/bin/bash
# run.sh PROPERTY TIER       builds the harness against /repo's current tree and runs one check
# run.sh replay FILE         runs the case of a replay file again
# run.sh setup               builds everything once
# Exit status: 0 held, 1 violated (with a VIOLATION line), 2 error of the check itself.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTELEMETRY=off GOSUMDB=off
unset GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GORACE GOEXPERIMENT
export XV_DIR="$here" XV_REPO=/repo

tmp=$(mktemp -d /tmp/xv-build.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT

build() { # build [-race]
  local race=$1
  export CGO_ENABLED=0
  [ -n "$race" ] && export CGO_ENABLED=1
  printf '{"Replace":{"/repo/xv_export.go":"%s/harness/overlay/xv_export.go.txt"}}' "$here" > "$tmp/overlay.json"
  # with the put-back stream exported by an overlay file, or without it when it isn't there under that name
  (cd "$here/harness" && go build $race -overlay "$tmp/overlay.json" -tags prepend -o "$tmp/xv" . ) 2> "$tmp/err1" ||
  (cd "$here/harness" && go build $race -o "$tmp/xv" . ) 2> "$tmp/err2" || {
    echo "ERROR: the harness doesn't build against /repo"; cat "$tmp/err2"; exit 2; }
}
buildcli() {
  (cd /repo && CGO_ENABLED=0 go build -o "$tmp/xbnf" ./main) 2> "$tmp/err" || {
    echo "ERROR: /repo/main doesn't build"; cat "$tmp/err"; exit 2; }
  export XV_CLI="$tmp/xbnf"
}

case "$1" in
setup)
  build -race; "$tmp/xv" list > /dev/null || exit 2
  build; "$tmp/xv" list; buildcli
  exit 0 ;;
replay)
  prop=$(sed -n 's/^ *"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
  if [ "$prop" = C17 ]; then build -race; else build; fi
  [ "$prop" = C22 ] && buildcli
  GORACE="halt_on_error=1 exitcode=66" "$tmp/xv" replay "$2"
  exit $? ;;
C[0-9][0-9])
  tier=${2:-${VERIF_TIER:-quick}}
  if [ "$1" = C17 ]; then build -race; else build; fi
  [ "$1" = C22 ] && buildcli
  TMPDIR="$tmp" "$tmp/xv" run "$1" "$tier"
  exit $? ;;
esac
echo "usage: run.sh PROPERTY quick|thorough | replay FILE | setup"
exit 2
