#!/usr/bin/env python3
"""Development helper: confirm a planted bug in a scratch copy and store it under seeded/<id>/.

plant(id, property, [(file under src/pymantic, old, new), ...], demo_python, needs, breaks)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def plant(id, prop, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        r = d + "/repo"
        out = os.path.join(d, "seed"); os.makedirs(out)
        open(out + "/demo.py", "w").write(demo)
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        def run_demo():
            return subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True, timeout=120)
        a = run_demo()
        if a.returncode != 0:
            print(id, "DEMO FAILS ON CLEAN TREE", a.stderr[-600:]); return False
        for f, old, new in edits:
            p = f"{r}/src/pymantic/{f}"; s = open(p, encoding="utf-8").read()
            if s.count(old) < 1: print(id, "NO MATCH", f, old[:60]); return False
            open(p, "w", encoding="utf-8").write(s.replace(old, new, 1))
        b = run_demo()
        if b.returncode == 0: print(id, "DEMO PASSES WITH BUG"); return False
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], cwd=r,
                           env=dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        if t.returncode != 0:
            print(id, "TESTS FAIL", t.stdout[-700:]); return False
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        dst = f"{HERE}/seeded/{id}"
        os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        shutil.copy(out + "/demo.sh", dst); shutil.copy(out + "/demo.py", dst)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(dst + "/meta.json", "w"), indent=1)
        print(id, "ok:", ((b.stderr or b.stdout).strip().splitlines() or ["exit %d" % b.returncode])[-1][:150])
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)
