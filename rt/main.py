"""Executable-contract engine.  main.py PROP --seed S --budget SEC --min N --max N --out FILE [--replay FILE]"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    for m in ("props1", "props2"):
        mod = importlib.import_module(m)
        if hasattr(mod, "run_" + prop):
            return getattr(mod, "gen_" + prop), getattr(mod, "run_" + prop)
    raise SystemExit("unknown property " + prop)


def evaluate(run, case):
    """None if the contract holds, else (kind, message)."""
    from common import Broken
    from props2 import Known
    case = json.loads(json.dumps(case))
    try:
        run(case)
    except Known as e:
        return ("known", str(e), e.key)
    except Broken as e:
        return ("broken", str(e), None)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/trikit/" in f.filename]
        if not where and isinstance(e, (KeyError, IndexError, ValueError, TypeError, AttributeError)):
            return ("broken", "the result cannot be read as the contract describes it: {}: {} (at {})".format(
                type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1].line), None)
        if not where:
            return ("harness", "".join(traceback.format_exception(e)), None)
        w = where[-1]
        return ("broken", "the real code raised {}: {} (at {}:{} in {})".format(
            type(e).__name__, e, w.filename.split("/repo/")[-1], w.lineno, w.name), None)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20.)
    ap.add_argument("--min", type=int, default=10)
    ap.add_argument("--max", type=int, default=100000)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--cases", help="JSON list of extra cases to evaluate first")
    ap.add_argument("--hints", help="JSON object of sizes and numbers to try (verifier models)")
    a = ap.parse_args()
    import gen
    import trikit
    gen.mine(os.path.dirname(trikit.__file__))
    if a.hints:
        for k, v in json.load(open(a.hints)).items():
            gen.HINTS[k] = sorted(set(gen.HINTS[k]) | set(v))
    g, run = load(a.prop)
    if a.replay:
        case = json.load(open(a.replay))["case"]
        r = evaluate(run, case)
        print(json.dumps({"result": r}))
        return 1 if r and r[0] == "broken" else 0
    t0 = time.time()
    res = {"prop": a.prop, "evaluations": 0, "distinct": 0, "samples": [], "known": {}, "broken": None, "harness": None,
           "sizes": {}, "seed": a.seed}
    seen = set()
    k = 0
    extra = json.load(open(a.cases)) if a.cases else []
    while k < a.max and (time.time() - t0 < a.budget or k < a.min) and time.time() - t0 < 3 * a.budget + 60:
        rng = random.Random("{}/{}/{}".format(a.prop, a.seed, k))
        case = extra.pop(0) if extra else g(rng, k)
        r = evaluate(run, case)
        key = json.dumps(case, sort_keys=True)
        res["evaluations"] += 1
        if key not in seen:
            seen.add(key)
            res["distinct"] += 1
        if len(res["samples"]) < 3:
            s = key if len(key) < 700 else key[:700] + "..."
            res["samples"].append(s)
        n = len(case["tri"]["origins"]) if isinstance(case, dict) and "tri" in case else len(case.get("recs", case.get("rows", [])))
        res["sizes"][n] = res["sizes"].get(n, 0) + 1
        k += 1
        if r is None:
            continue
        if r[0] == "known":
            res["known"].setdefault(r[2], {"count": 0, "first": r[1]})["count"] += 1
            continue
        if r[0] == "harness":
            res["harness"] = {"msg": r[1], "case": case}
            break
        best = (len(key), case, r[1])
        # look for a smaller failing input
        t1 = time.time()
        for kk in range(400):
            if time.time() - t1 > min(15., a.budget):
                break
            c2 = g(random.Random("{}/{}/{}".format(a.prop, a.seed, kk)), kk)
            l2 = len(json.dumps(c2))
            if l2 >= best[0]:
                continue
            r2 = evaluate(run, c2)
            if r2 and r2[0] == "broken":
                best = (l2, c2, r2[1])
        res["broken"] = {"case": best[1], "msg": best[2]}
        break
    res["wall"] = round(time.time() - t0, 2)
    if a.out:
        json.dump(res, open(a.out, "w"))
    print(json.dumps({k: v for k, v in res.items() if k not in ("samples",)})[:1500])
    return 0


if __name__ == "__main__":
    sys.exit(main())
