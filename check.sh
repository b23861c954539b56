#!/bin/bash
# check.sh <property>: builds the harness and the commands from /repo's working tree and runs one check.
# VERIF_TIER (quick, thorough) and VERIF_SEED choose the workload.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC LC_ALL=C
unset LEDGER_FILE GOARCH GOOS
verif=$(cd "$(dirname "$0")" && pwd) || exit 3
id=${1:?usage: check.sh <property>}
tmp=$(mktemp -d /tmp/vrun.XXXXXX) || exit 3
trap 'rm -rf "$tmp"' EXIT
chmod 755 "$tmp"; mkdir "$tmp/bin"
cp -r "$verif/harness" "$tmp/src" || exit 3
cd "$tmp/src" || exit 3
(
  build() { go build -trimpath -o "$tmp/bin/$@" 2>&1 || { echo "build failed: $1" >&2; exit 3; }; }
  pids=()
  build verifharness . & pids+=($!)
  case $id in
  C13) build verifharness-race -race . & pids+=($!) ;;
  esac
  case $id in
  C26) build regprobe ./regprobe & pids+=($!) ;;
  esac
  case $id in
  C30|C35) build muscular github.com/cespedes/accounting/cmd/muscular & pids+=($!) ;;
  esac
  case $id in
  C08|C12|C14|C15|C17|C18|C19|C23|C24|C28|C31|C33|C34|C35|C36) build ledger github.com/cespedes/accounting/cmd/ledger & pids+=($!) ;;
  esac
  case $id in
  C16|C14|C34|C35) build acc github.com/cespedes/accounting/cmd/acc & pids+=($!) ;;
  esac
  case $id in
  C32)
    # the browsers, with a stand-in for the library which draws tables
    mkdir "$tmp/tableview" && cp /repo/go.mod /repo/go.sum "$tmp/tableview/" && cp tableview/tableview.go.txt "$tmp/tableview/tableview.go" || exit 3
    mv "$tmp/tableview/go.mod" "$tmp/browse.mod" && mv "$tmp/tableview/go.sum" "$tmp/browse.sum" || exit 3
    printf 'module github.com/cespedes/tableview\n' >"$tmp/tableview/go.mod"
    printf '\nreplace github.com/cespedes/tableview => %s\n' "$tmp/tableview" >>"$tmp/browse.mod"
    go build -C /repo -modfile "$tmp/browse.mod" -trimpath -o "$tmp/bin/tacc" ./cmd/tacc 2>&1 && go build -C /repo -modfile "$tmp/browse.mod" -trimpath -o "$tmp/bin/ledger-browse" ./cmd/ledger 2>&1 || { echo "build failed: browsers"; exit 3; }
    ;;
  esac
  rc=0
  for p in "${pids[@]}"; do wait "$p" || rc=3; done
  exit $rc
) >"$tmp/build.log" || { cat "$tmp/build.log" >&2; exit 3; }
cd "$verif" || exit 3
"$tmp/bin/verifharness" -prop "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$verif" -bin "$tmp/bin"
exit $?
