#!/bin/bash
# trybug.sh SEED [CXX]: run this property's quick check against a scratch copy with the planted bug
id=$1; V=/verif
prop=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")}
d=/tmp/trybug.$$
cp -a /repo $d && git -C $d apply $V/seeded/$id/patch.diff || exit 3
SX_REPO=$d $V/check $prop quick > $d.log 2>&1; rc=$?
echo "$id $prop rc=$rc $(grep -a -m1 VIOLATION $d.log) $(tail -1 $d.log | cut -c1-150)"
rm -rf $d $d.log
