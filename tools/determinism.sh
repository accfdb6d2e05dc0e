#!/bin/bash
# Runs each check twice, with different worker counts and hash seeds, and compares the digests of all traces.
# usage: tools/determinism.sh RUNS [ids...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-120}; shift
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19}
rc=0
for c in $ids; do
  a=$(VP_EVIDENCE_DIR=$(mktemp -d) DST_DIGEST=1 PYTHONHASHSEED=1 /opt/venv/bin/python -m dst.check "$c" --runs "$n" --workers 8 | grep DIGEST)
  b=$(VP_EVIDENCE_DIR=$(mktemp -d) DST_DIGEST=1 PYTHONHASHSEED=77 /opt/venv/bin/python -m dst.check "$c" --runs "$n" --workers 3 | grep DIGEST)
  if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$c same ($a)"; else echo "$c DIFFERS: $a / $b"; rc=1; fi
done
exit $rc
