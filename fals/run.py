"""Concrete search for an input on which the running code contradicts the contract, and replay of one.

usage: run.py PROP --seed N --budget SECONDS --worker I/N [--hints FILE] --out FILE
       run.py --replay FILE
"""
import argparse
import importlib
import itertools
import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.path[:0] = [os.path.dirname(HERE), os.environ.get("VERIF_REPO", "/repo") + "/src"]
sys.setrecursionlimit(3000)
from fals.lib import Fail, safe_repr  # noqa


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def run_case(mod, case, limit=10):
    """None or failure message"""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        mod.execute(case)
        return None
    except Fail as f:
        return str(f)
    except Hang:
        return f"no answer within {limit} s"
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        fs = traceback.extract_tb(e.__traceback__)
        inside = any("/src/pymantic/" in f.filename for f in fs)
        if not inside and isinstance(e, (AttributeError, ImportError, NameError)):
            raise
        return f"unexpected {type(e).__name__}: {safe_repr(e)} at {fs[-1].filename}:{fs[-1].lineno} in {fs[-1].name}"
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--worker", default="0/1")
    ap.add_argument("--hints")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        mod = importlib.import_module("fals." + d["property"].lower())
        if "case" not in d or d["case"] is None:
            print("no failing input; failed obligations:", d.get("obligations"))
            return 1
        m = run_case(mod, tup(d["case"]), 30)
        print("FAIL: " + m if m else "passes")
        return 1 if m else 0
    mod = importlib.import_module("fals." + a.prop.lower())
    i, n = map(int, a.worker.split("/"))
    hints = json.load(open(a.hints)) if a.hints else []
    rnd = random.Random(a.seed * 1000003 + i)
    t0 = time.time()
    res = dict(evaluations=0, exhaustive=0, failures=[], samples=[], error=None)
    seen = set()
    try:
        fixed = mod.fixed() if hasattr(mod, "fixed") else ()
        streams = [("fixed", (c for k, c in enumerate(fixed) if k % n == i))]
        if hints and hasattr(mod, "from_hints") and i == 0:
            streams.insert(0, ("hints", iter(mod.from_hints(hints))))
        streams.append(("random", mod.cases(rnd)))
        for nm, st in streams:
            for case in st:
                if nm == "random" and time.time() - t0 > a.budget:
                    break
                if time.time() - t0 > a.budget * 3:
                    break
                case = tup(case)
                key = hash(repr(case))
                res["evaluations"] += 1
                if nm != "random":
                    res["exhaustive"] += 1
                if key in seen:
                    continue
                seen.add(key)
                m = run_case(mod, case)
                if m:
                    if hasattr(mod, "shrink"):
                        try:
                            case, m = minimise(mod, case, m)
                        except Exception:
                            res["error"] = traceback.format_exc()[-3000:]
                    known = mod.known(case, m) if hasattr(mod, "known") else None
                    if known:
                        continue
                    res["failures"].append(dict(case=case, message=m, stream=nm))
                    if len(res["failures"]) >= 3:
                        break
                elif len(res["samples"]) < 3 and (len(seen) % 7 == 3):
                    res["samples"].append(safe_repr(case, 400))
            if res["failures"]:
                break
    except Exception:
        res["error"] = traceback.format_exc()[-3000:]
    res["distinct"] = len(seen)
    res["wall"] = time.time() - t0
    with open(a.out, "w") as f:
        json.dump(res, f)
    return 0


def minimise(mod, case, m):
    t = time.time()
    progress = True
    while progress and time.time() - t < 10:
        progress = False
        for c in mod.shrink(case):
            m2 = run_case(mod, tup(c), 5)
            if m2 and not (hasattr(mod, "known") and mod.known(tup(c), m2)):
                case, m, progress = tup(c), m2, True
                break
    return case, m


def tup(x):
    if isinstance(x, (list, tuple)):
        return tuple(tup(y) for y in x)
    return x


if __name__ == "__main__":
    sys.exit(main())
