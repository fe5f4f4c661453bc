#!/bin/bash
# mkseed.sh ID  : takes the uncommitted change of /repo as the patch of seeded/ID and reverts it,
# then runs the demo on the unchanged and on the patched tree (in scratch copies).
set -e
id=$1; d=/verif/seeded/$id
R=${R:-/repo}; git -C $R diff --quiet || { git -C $R diff > $d/patch.diff; git -C $R checkout -q -- .; }
[ -s $d/patch.diff ] || { echo "$id: no patch"; exit 1; }
w=$(mktemp -d /tmp/seedXXXXXX); trap "rm -rf $w" EXIT
cp -a /repo/src $w/src; mkdir $w/demo; cp $d/demo.sh $w/demo/; for f in $d/*; do case $f in *.diff|*.json) ;; *) cp $f $w/demo/;; esac; done
(cd $w && timeout 300 bash demo/demo.sh >$w/o1 2>&1) && echo "$id unchanged: 0" || { echo "$id: demo FAILS on the unchanged tree"; tail -5 $w/o1; exit 1; }
(cd $w && patch -s -p1 < $d/patch.diff)
(cd $w && timeout 300 bash demo/demo.sh >$w/o2 2>&1) && { echo "$id: demo does not see the patch"; exit 1; } || { echo "$id patched: fails as it should"; tail -2 $w/o2 | head -c 300; }
