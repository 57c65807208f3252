#!/bin/bash
# check.sh PROPERTY TIER: builds the verifier and decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1; tier=${2:-quick}; shift 2
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/govc.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
fail() {
  mkdir -p "$here/evidence/replay"
  echo "{\"property\":\"$prop\",\"failed\":\"$1\"}" > "$here/evidence/replay/$prop-setup.json"
  echo "VIOLATION property=$prop replay=$here/evidence/replay/$prop-setup.json no-failing-input-found"
  exit 1
}
(cd "$here/govc" && PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod go build -o "$tmp/govc" ./cmd/govc) || fail "the verifier does not build"
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
cd /repo
timeout 880 "$tmp/govc" -property "$prop" -tier "$tier" -verif "$here" -tmp "$tmp" "$@"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then fail "the verifier stopped with status $rc"; fi
exit $rc
