"""plant.py FILE [ids...]: FILE defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, what)]"""
import json, os, shutil, subprocess, sys, importlib.util
SEED = os.environ.get("SEED_DIR", "/tmp/plant/new")
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO_SH = '''#!/bin/bash
# Run in the repository: 0 if the property held, non-zero if it broke.
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:$PWD/python" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''
def copy(path):
    shutil.rmtree(path, ignore_errors=True)
    sh("cp -a /repo %s" % path)
def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1]); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
    ids = sys.argv[2:]
    for bug in b.BUGS:
        if ids and bug["id"] not in ids: continue
        sc = "/tmp/plantsc-" + bug["id"]
        copy(sc)
        for f, old, new in bug["edits"]:
            p = os.path.join(sc, "python/lsst/skymap", f)
            s = open(p).read()
            assert s.count(old) >= 1, (bug["id"], f, old)
            assert s.count(old) == 1 or bug.get("multi"), (bug["id"], "many", f, old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C %s diff" % sc).stdout
        d = os.path.join("/tmp/plant/out", bug["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(bug["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        shutil.copy("/tmp/plant/kit.py", d)
        shutil.copytree("/verif/dst/stubs", d + "/stubs", ignore=shutil.ignore_patterns("__pycache__"))
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["what"]}, open(d + "/meta.json", "w"), indent=1)
        clean = sh("bash %s/demo.sh" % d, cwd="/repo")
        dirty = sh("bash %s/demo.sh" % d, cwd=sc)
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p skymap_no_init tests/test_packers.py", cwd=sc,
               env=dict(os.environ, PYTHONPATH=sc + "/python:" + sc + "/tests:/opt/vp/support", PYTHONDONTWRITEBYTECODE="1"))
        up = sh("sed 's#/repo#%s#g' /verif/tools/run_repo_tests.py > %s/rt.py; /opt/venv/bin/python %s/rt.py 2>&1 | tail -8" % (sc, sc, sc), cwd="/verif").stdout if bug.get("up", True) else ""
        ok = clean.returncode == 0 and dirty.returncode != 0 and t.returncode == 0
        nfail = [l for l in up.splitlines() if l.startswith("FAILED") and "testTractSeparation" not in l]
        print(bug["id"], bug["prop"], "OK" if ok else "NOT-OK", "clean", clean.returncode, "dirty", dirty.returncode, "tests", t.returncode, (dirty.stdout + dirty.stderr).strip().splitlines()[-1:], "upstream-fails:", nfail)
        if not ok:
            print("  CLEAN:", clean.stdout[-200:], clean.stderr[-400:] if clean.returncode else "", "DIRTY:", dirty.stdout[-200:], dirty.stderr[-300:])
        else:
            dst = os.path.join(SEED, bug["id"])
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        shutil.rmtree(sc)
main()
