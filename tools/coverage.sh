#!/bin/bash
# coverage.sh RUNS [ID...]: lines of repository functions that no run of the checks reaches
runs=$1; shift
cd "$(dirname "$0")/.." || exit 2
out=$(mktemp -d)
for id in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}; do
  DST_COV=$out/$id VP_EVIDENCE_DIR=$out/ev /opt/venv/bin/python -m dst.check "$id" --runs "$runs" > /dev/null 2>&1 || echo "$id: rc $?"
done
/opt/venv/bin/python - "$out" <<'P'
import os, sys, types
sys.path.insert(0, ".")
from dst import bootstrap as b
b.boot()
want = {}
for c in b.repo_functions():
    if c.co_name == "<module>":
        continue
    f = c.co_filename[len(b.REPO_PY):]
    for _, _, n in c.co_lines():
        if n is not None and n > c.co_firstlineno:
            want.setdefault(f, {})[n] = c.co_qualname
got = {}
for p in sorted(os.listdir(sys.argv[1])):
    if p != "ev":
        for l in set(open(os.path.join(sys.argv[1], p))):
            f, n = l.rsplit(":", 1)
            got.setdefault((f, int(n)), []).append(p)
for f in sorted(want):
    src = open(b.REPO_PY + f).read().split("\n")
    for n in sorted(want[f]):
        if (f, n) not in got:
            print("%s:%d %s: %s" % (f, n, want[f][n], src[n - 1].strip()))
P
rm -r "$out"
