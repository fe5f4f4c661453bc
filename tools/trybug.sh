#!/bin/bash
# trybug.sh ID [PROP...] : runs the checks (default: the property's) against the seeded change, in a scratch copy
id=$1; shift; d=/verif/seeded/$id
w=$(mktemp -d /tmp/tryXXXXXX); trap "rm -rf $w" EXIT
cp -a /repo $w/repo; (cd $w/repo && git apply $d/patch.diff) || exit 1
P=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
for p in $P; do GTMESH_REPO=$w/repo VERIF_SEED=${SEED:-1} timeout 900 python3 /verif/bin/check.py $p quick >$w/out 2>&1; echo "$id $p exit $?"; grep -m2 -A1 "^VIOLATION" $w/out | cut -c1-300; grep -q VIOLATION $w/out || tail -3 $w/out | cut -c1-300; done
