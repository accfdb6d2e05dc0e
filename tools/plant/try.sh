#!/bin/bash
# try.sh ID [props...]: run the checks of a seeded bug against a scratch copy
id=$1; shift
sc=/tmp/trysc-$id; rm -rf $sc; cp -a /repo $sc; git -C $sc apply ${SEED_DIR:-/verif/seeded}/$id/patch.diff || exit 9
props=${*:-$(python3 -c "import json;print(json.load(open('${SEED_DIR:-/verif/seeded}/$id/meta.json'))['property'])")}
cd ${VCOPY:-/verif}
for p in $props; do
 s=$(date +%s); VP_REPO=$sc VP_EVIDENCE_DIR=/tmp/trysc-ev-$id nice /opt/venv/bin/python -m dst.check $p ${RUNS:+--runs $RUNS} > /tmp/trysc-$id.$p.log 2>&1; rc=$?
 echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(egrep -h '^seed|^VIOL|^note' /tmp/trysc-$id.$p.log | cut -c1-260 | tr '\n' ' ')"
done
rm -rf $sc /tmp/trysc-ev-$id
