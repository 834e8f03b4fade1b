#!/bin/bash
# check.sh <property id>... : build the checker (vendored sources, offline) and decide the properties on /repo's working tree.
# The binary is kept in /verif/bin and rebuilt whenever the checker's sources differ from those it was built from.
cd "$(dirname "$0")" || exit 1
V=$(pwd)
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
unset GOOS GOARCH
mkdir -p bin evidence
sum=$(cd checker && cat go.mod vendor/modules.txt *.go | sha256sum | cut -d' ' -f1)
if [ ! -x bin/verifcheck ] || [ "$(cat bin/sum 2>/dev/null)" != "$sum" ]; then
  (cd checker && go build -o ../bin/verifcheck.new .) || exit 1
  mv bin/verifcheck.new bin/verifcheck
  echo "$sum" > bin/sum
fi
[ "$1" = "--build" ] && exit 0
export GOFLAGS=-mod=mod
rc=0
for p in "$@"; do
  bin/verifcheck -prop "$p" -repo "${VERIF_REPO:-/repo}" -verif "$V" -tier "${VERIF_TIER:-quick}" || rc=1
done
exit $rc
