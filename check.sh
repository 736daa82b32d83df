#!/bin/bash
# check.sh ID...: builds the checker from /verif/checker and decides the
# properties on /repo's current source. Exit 0: all hold; 1: a VIOLATION line.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOROOT=/opt/veriftools/go1.27.3 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
bin="$here/.bin/checker"
mkdir -p "$here/.bin" "$here/evidence"
if ! (cd "$here/checker" && go build -o "$bin.$$" .) ; then
  echo "the checker does not build" >&2
  exit 2
fi
mv -f "$bin.$$" "$bin"
[ "$1" = "--build" ] && exit 0
exec "$bin" -repo /repo -verif "$here" "$@"
