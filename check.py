#!/usr/bin/env python3-vt
"""Decides one property of /repo's current working tree.

  check.py --property C01        (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. extracts the contracts' functions from /repo/src (the imported modules' own source), executes them
   symbolically, generates proof obligations and discharges them (z3, cvc5);
2. runs the contracts' concrete counterparts against the running code (replay search), in parallel;
3. writes evidence/<id>.json.  Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"  # VERIF_REPO: scratch copies during development only
VENV = "/opt/venv"
sys.path[:0] = [HERE, SRC]
sys.path.append(VENV + "/lib/python3.12/site-packages")
sys.setrecursionlimit(8000)


def worker(conn, prop, idx, timeout):
    try:
        from contracts import registry
        from pyvc import verify, terms
        t, mk = registry.tasks(prop)[idx]
        t.timeout = timeout
        verify.run_task(t, mk)
        obl = []
        for o in t.obligations:
            v = o.verdict
            d = dict(name=o.name, status=v.status, backend=v.backend, time=v.time)
            if v.status != "proved":
                d["goal"] = str(o.goal)[:1500]
                d["pc"] = [str(p)[:600] for p in o.pc][:40]
                d["model"] = str(v.model)[:2500] if v.model is not None else None
                d["reason"] = v.reason
            obl.append(d)
        conn.send(dict(name=t.name, functions=t.functions, status=t.status, reason=t.reason, paths=t.paths, wall=t.wall,
                       executed=sorted(t.executed), used=sorted(t.contracts_used), obligations=obl,
                       loop_lemmas=getattr(t, "loop_lemmas", 0), stats=dict(terms.STATS),
                       digests=getattr(t, "digests", {}), assumptions=list(getattr(t, "assumptions", ())), bounded=getattr(t, "bounded", None)))
    except BaseException:
        try:
            conn.send(dict(name=f"task {idx}", functions=[], status="unsupported", paths=0, wall=0, executed=[], used=[],
                           reason="engine: " + traceback.format_exc()[-800:], obligations=[], stats={}, loop_lemmas=0))
        except BaseException:
            pass
    finally:
        conn.close()


def run_tasks(prop, n, names, par, wall, timeout):
    """each task in its own process"""
    ctx = mp.get_context("fork")
    todo, live, out = list(range(n)), {}, {}
    while todo or live:
        while todo and len(live) < par:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, prop, i, timeout))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        time.sleep(0.02)
        for i, (p, a, t) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
            elif not p.is_alive():
                pass
            elif time.time() - t > wall:
                p.kill()
            else:
                continue
            if r is None:
                r = dict(name=names[i], functions=[], status="unsupported", paths=0, wall=time.time() - t, executed=[], used=[],
                         reason="the verifier ran out of time or memory", obligations=[], stats={}, loop_lemmas=0)
            if p.is_alive():
                p.kill()
            p.join()
            out[i] = r
            del live[i]
    return [out[i] for i in range(n)]


def start_search(prop, seed, budget, workers, tmp, tag, hints=None):
    ps = []
    for i in range(workers):
        o = os.path.join(tmp, f"{tag}{i}.json")
        cmd = [VENV + "/bin/python", os.path.join(HERE, "fals", "run.py"), prop, "--seed", str(seed), "--budget", str(budget),
               "--worker", f"{i}/{workers}", "--out", o]
        if hints:
            cmd += ["--hints", hints]
        env = dict(os.environ, PYTHONHASHSEED=str((seed + i) % 4294967295))
        ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=tmp), o))
    return ps


def end_search(ps, limit):
    res = dict(evaluations=0, distinct=0, exhaustive=0, failures=[], samples=[], errors=[])
    t = time.time()
    for p, o in ps:
        try:
            _, err = p.communicate(timeout=max(1, limit - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        try:
            d = json.load(open(o))
        except Exception:
            res["errors"].append("replay search gave no result: " + err.decode("utf-8", "replace")[-800:])
            continue
        for k in ("evaluations", "distinct", "exhaustive"):
            res[k] += d[k]
        res["failures"] += d["failures"]
        res["samples"] += d["samples"][:2]
        if d["error"]:
            res["errors"].append(d["error"])
    return res


def changed_code(prop, r):
    """the code this task executes differs from the code its proof was completed on (contracts/baseline.json)"""
    try:
        base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))[prop].get(r["name"])
    except (OSError, KeyError, ValueError):
        return False
    return base is not None and any(base.get(f) != d for f, d in r.get("digests", {}).items())


def write_replay(prop, name, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{prop}-{name}.json")
    with open(f, "w") as h:
        json.dump(data, h, indent=1)
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--no-search", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    quick = tier == "quick"
    from contracts import registry
    meta = registry.META[prop]
    tmp = tempfile.mkdtemp(prefix="vcheck-")
    known = registry.known_findings(prop)
    try:
        search = [] if a.no_search else start_search(prop, seed, meta.get("budget", 20) if quick else 400, 3, tmp, "a")
        ts = registry.tasks(prop)
        names = [t.name for t, _ in ts]
        res = run_tasks(prop, len(ts), names, 6, 240 if quick else 1500, 8000 if quick else 60000)
        for r in res:
            if r["status"] != "run" and a.v:
                print("  task", r["name"], r["status"], r["reason"])
        obl = [(r, o) for r in res for o in r["obligations"]]
        proved = [x for x in obl if x[1]["status"] == "proved"]
        refuted = [x for x in obl if x[1]["status"] == "refuted"]
        unknown = [x for x in obl if x[1]["status"] == "unknown"]
        bad = [r for r in res if r["status"] != "run"]
        found = end_search(search, 150 if quick else 1500) if search else dict(evaluations=0, distinct=0, exhaustive=0, failures=[], samples=[], errors=[])
        rounds = 1
        complete = not refuted and not unknown and not bad and bool(obl)
        if not complete and not found["failures"] and not a.no_search:
            # obligations open: look harder for a failing input before deciding
            hints = os.path.join(tmp, "hints.json")
            with open(hints, "w") as h:
                json.dump([dict(task=r["name"], name=o["name"], model=o.get("model"), goal=o.get("goal")) for r, o in refuted][:50] +
                          [dict(task=r["name"], name="unsupported", model=r["reason"]) for r in bad], h)
            left = 700 - (time.time() - t0)
            b = min(meta.get("deep", 90), left / 3) if quick else 900
            if b > 5:
                f2 = end_search(start_search(prop, seed + 17, b, 8, tmp, "b", hints), b * 3 + 60)
                for k in ("evaluations", "distinct", "exhaustive"):
                    found[k] += f2[k]
                found["failures"] += f2["failures"]
                found["errors"] += f2["errors"]
                rounds = 2
        # obligations that were discharged for the code as it was, but are not for the code as it is now
        undischarged = [(r, o) for r, o in unknown if changed_code(prop, r)]
        code, lines = 0, []
        if found["failures"]:
            f = found["failures"][0]
            path = write_replay(prop, f"seed{seed}", dict(
                property=prop, case=f["case"], message=f["message"],
                run=f"{VENV}/bin/python {HERE}/fals/run.py --replay <this file>",
                failed_obligations=[dict(task=r["name"], **o) for r, o in refuted][:10]))
            lines.append(f"failing input: {f['message']}"[:600])
            if refuted:
                lines.append(f"failed obligation: [{refuted[0][0]['name']}] {refuted[0][1]['name']}")
            lines.append(f"VIOLATION property={prop} replay={path}")
            code = 1
        elif refuted or undischarged:
            r, o = (refuted or undischarged)[0]
            path = write_replay(prop, f"obligation-seed{seed}", dict(
                property=prop, case=None, obligations=[dict(task=r["name"], **o) for r, o in refuted + undischarged][:20],
                note="the verifier refuted these obligations (status refuted), or could not discharge them for changed code whose "
                     "obligations it discharged before the change (status unknown); no concrete failing input was found"))
            lines.append(f"failed obligation: [{r['name']}] {o['name']}")
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
            code = 1
        status = "complete" if complete else "incomplete"
        if bad or unknown:
            lines.insert(0, f"not decided by proof ({prop}): " + "; ".join(
                [f"{r['name']}: {r['reason']}"[:200] for r in bad] + [f"{r['name']}/{o['name']}: unknown" for r, o in unknown])[:1500])
        funcs = sorted({f for r in res for f in r["functions"]})
        execd = sorted({f for r in res for f in r["executed"]})
        backends = {}
        for _, o in proved:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        level = meta.get("level", "proof")
        cov = dict(
            obligations=len(obl), discharged=len(proved), refuted=len(refuted), unknown=len(unknown),
            loop_lemmas_discharged=sum(r["loop_lemmas"] for r in res),
            checker_cmd=f"VERIF_TIER={tier} VERIF_SEED={seed} python3-vt {HERE}/check.py --property {prop}",
            trusted_base=registry.TRUSTED + meta.get("trusted", []),
            functions_under_contract=funcs,
            functions_executed_symbolically=execd,
            callee_contracts_used=sorted({u for r in res for u in r["used"]}),
            backends=backends,
            solver_time_s=round(sum(o["time"] for _, o in obl), 3),
            paths=sum(r["paths"] for r in res),
            tasks=[dict(task=r["name"], status=r["status"], reason=r["reason"], paths=r["paths"], obligations=len(r["obligations"]),
                        discharged=sum(o["status"] == "proved" for o in r["obligations"]), wall_s=round(r["wall"], 2)) for r in res],
            proof_status=status,
            bounded_standins=meta.get("bounded", []) + [f"{r['name']}: {r['reason']}" for r in bad],
            replay_search=dict(evaluations=found["evaluations"], distinct=found["distinct"], enumerated=found["exhaustive"],
                               rounds=rounds, rule="enumerated small histories/inputs, then seeded random ones; the concrete contract is evaluated on the running code",
                               errors=found["errors"][:2]),
            samples=[dict(task=r["name"], obligation=o["name"], status=o["status"], backend=o["backend"]) for r, o in obl[::max(1, len(obl) // 8)]][:10]
            + found["samples"][:4],
        )
        if level == "exploration":
            cov.update(evaluations=found["evaluations"], distinct_nontrivial=found["distinct"], rule=cov["replay_search"]["rule"])
        if level == "other":
            cov["explanation"] = meta["explanation"]
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=registry.ASSUMED + meta.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=1 if code else 0)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as h:
            json.dump(ev, h, indent=1)
        for k in known:
            print(f"KNOWN-FINDING: property={prop} {k}")
        print(f"{prop}: {len(proved)}/{len(obl)} obligations discharged ({len(refuted)} refuted, {len(unknown)} open), "
              f"{sum(r['loop_lemmas'] for r in res)} loop lemmas, {len(execd)} functions executed symbolically, "
              f"{found['evaluations']} concrete cases, {time.time() - t0:.1f} s")
        for l in lines:
            print(l)
        if found["errors"] and code == 0:
            print("replay search error:", found["errors"][0][-1500:])
            if not complete:
                return 2
        if not obl and code == 0:
            print("no obligation was generated")
            if found["distinct"] < 100:
                return 2
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
