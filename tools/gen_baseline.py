#!/usr/bin/env python3-vt
"""Records, per property and proof task, the digests of the functions the completed proof executed (contracts/baseline.json).
Run on the unchanged tree; a task is recorded only when all its obligations were discharged.  It is used for one thing only:
an obligation left open (unknown) is reported when the code it is about is not the code it was discharged for."""
import json, os, sys
import multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, "/repo/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(8000)


def one(a):
    from contracts import registry
    from pyvc import verify
    prop, i = a
    t, mk = registry.tasks(prop)[i]
    verify.run_task(t, mk)
    ok = t.status == "run" and all(o.verdict.status == "proved" for o in t.obligations)
    return prop, t.name, dict(sorted(t.digests.items())) if ok else None, t.reason


if __name__ == "__main__":
    from contracts import registry
    props = sys.argv[1:] or sorted(registry.META)
    f = os.path.join(HERE, "contracts", "baseline.json")
    out = json.load(open(f)) if os.path.exists(f) else {}
    jobs = [(p, i) for p in props for i in range(len(registry.tasks(p)))]
    for p in props:
        out[p] = {}
    with mp.get_context("fork").Pool(7, maxtasksperchild=3) as ex:
        for p, n, d, why in ex.imap_unordered(one, jobs, 1):
            if d is None:
                print("not recorded:", p, n, why)
            else:
                out[p][n] = d
    json.dump(out, open(f, "w"), indent=0, sort_keys=True)
