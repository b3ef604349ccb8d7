#!/bin/bash
# seedtest.sh ID [check flags]: is the planted bug valid, and do the checks catch it?
# Works in a copy of /repo under /tmp.
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/seedw.$ID
rm -rf "/tmp/seedw.$ID"
cp -a /repo "$W"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
cd "$W"
bash "$S/demo.sh" > /tmp/seed.$ID.demo0 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
PKGS=$(go list -e ./... | grep -v '^github.com/oov/psd/composite$')
go build $PKGS || { echo "$ID: does not build"; exit 1; }
rm -rf output blend/output; mkdir -p output
go test -json -vet=off -count=1 -timeout 10m $PKGS > /tmp/seed.$ID.log 2>&1
python3 /opt/vp/results.py /tmp/seed.$ID.json gojson:/tmp/seed.$ID.log >/dev/null
bash "$S/demo.sh" > /tmp/seed.$ID.demo1 2>&1; d1=$?
t=$(python3 -c "
import json
a=json.load(open('/tmp/seed.$ID.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print([t for t in b['stable'] if t not in a['passed']][:3])")
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -z "$NOCHECK" ]; then
  /verif/check.sh $P quick -repo "$W" "$@" > /tmp/seed.$ID.check 2>&1; c=$?
fi
echo "$ID: demo unchanged=$d0 patched=$d1 failing-tests=$t check $P exit=$c $(grep -c ^VIOLATION /tmp/seed.$ID.check)"
rm -rf "/tmp/seedw.$ID"
