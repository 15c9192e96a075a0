#!/usr/bin/env python3
"""Development helper: run each planted bug's check on a scratch copy (or all checks with --all)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", HERE + "/seeded")

def one(id, prop=None):
    s = f"{SEEDED}/{id}"
    prop = prop or json.load(open(s + "/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="try-", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
        r = subprocess.run(["git", "apply", s + "/patch.diff"], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode: return id, "PATCH DOES NOT APPLY", r.stderr
        shutil.copytree(HERE, d + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays", "__pycache__"))
        t = time.time()
        p = subprocess.run(["python3-vt", d + "/verif/check.py", "--property", prop], cwd=d + "/verif",
                           env=dict(os.environ, VERIF_REPO=d + "/repo"), capture_output=True, text=True)
        return id, f"{prop} exit {p.returncode} {time.time()-t:.0f}s", (p.stdout + p.stderr[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(2) as ex:
        for id, st, out in ex.map(one, ids):
            print("==", id, st)
            print("   " + "\n   ".join(l[:230] for l in out.strip().splitlines()))
