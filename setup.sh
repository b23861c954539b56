#!/bin/bash
# setup.sh: warms the build cache (the checks build everything again from /repo's working tree).
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
verif=$(cd "$(dirname "$0")" && pwd) || exit 1
tmp=$(mktemp -d /tmp/vrun.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp -r "$verif/harness" "$tmp/src" && cd "$tmp/src" || exit 1
go build -trimpath -o "$tmp/h" . || exit 1
go build -trimpath -race -o "$tmp/hr" . || exit 1
go build -trimpath -o "$tmp/rp" ./regprobe || exit 1
for c in ledger muscular acc; do
  go build -trimpath -o "$tmp/$c" github.com/cespedes/accounting/cmd/$c || exit 1
done
mkdir -p "$verif/evidence"
