#!/bin/bash
# tryseed.sh ID: builds, tests and demonstrates a planted bug in a scratch copy
# mounted over /repo inside a private mount namespace, and runs the check of its property on it
id=$1; s=${SEEDS:-/verif/seeded}/$id; w=/tmp/seed.$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cp -a /repo $w; git -C $w checkout -q -- . ; git -C $w apply $s/patch.diff || { echo "$id: patch does not apply"; exit 1; }
unshare -Urm bash -c "
 cd /repo; bash $s/demo.sh >/tmp/$id.demo0 2>&1; echo demo-clean \$?
 mount --bind $w /repo; cd /repo; bash $s/demo.sh >/tmp/$id.demo1 2>&1; echo demo-bug \$?
 [ -n \"$NOTEST\" ] || { bash /opt/vp/test.sh /tmp/$id.json >/tmp/$id.test 2>&1; tail -1 /tmp/$id.test; grep -a '(Failed)' /tmp/$id.test; }
" 2>&1 | tr '\n' ' '; echo
for c in $p $2; do VERIF_BUILD=/tmp/seedbuild VERIF_REPO=$w timeout 1800 python3 /verif/engine/check.py $c > /tmp/$id.check 2>/tmp/$id.err; echo "$id: check $c exit $? $(grep -m1 -A1 VIOLATION /tmp/$id.check | tail -1)"; done
rm -rf "$w"
