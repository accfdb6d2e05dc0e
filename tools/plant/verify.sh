#!/bin/bash
# verify.sh ID...: each planted bug still applies, and its demonstration tells the trees apart
for id in "$@"; do
 sc=$(mktemp -d /tmp/verify-XXXXXX); cp -a /repo "$sc/repo"; cp -a ${SEED_DIR:-/verif/seeded}/$id "$sc/d"
 cd "$sc/repo"; timeout 300 bash "$sc/d/demo.sh" >/dev/null 2>&1; a=$?
 git apply "$sc/d/patch.diff"; p=$?; timeout 300 bash "$sc/d/demo.sh" >/dev/null 2>&1; b=$?
 cd /; rm -rf "$sc"
 [ $a = 0 ] && [ $p = 0 ] && [ $b != 0 ] && echo "$id ok" || echo "$id BAD clean=$a apply=$p patched=$b"
done
