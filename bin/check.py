"""bin/check PROP [quick|thorough] : decide one property on /repo's current tree.

Runs (1) the deductive verifier on the functions the property is anchored in (dv/, unbounded, from the current
source) and (2) the executable contracts on the real code (rt/, bounded).  See DESIGN.md for the outcome policy.
Environment: VERIF_SEED, VERIF_TIER, VERIF_REPO (scratch copies only; default /repo)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
LEVELS = json.load(open(os.path.join(HERE, "levels.json")))


def rt_env(scratch):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=REPO, MPLBACKEND="Agg", MPLCONFIGDIR=scratch,
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", TMPDIR=scratch)
    return e


def run_rt(prop, seed, budget, scratch, tag, hints=None):
    out = os.path.join(scratch, "rt_{}.json".format(tag))
    cmd = [PY, os.path.join(HERE, "rt", "main.py"), prop, "--seed", str(seed), "--budget", str(budget), "--out", out]
    if hints:
        cmd += ["--hints", hints]
    try:
        p = subprocess.run(cmd, env=rt_env(scratch), capture_output=True, text=True, timeout=4 * budget + 240)
    except subprocess.TimeoutExpired:
        return {"harness": {"msg": "timeout"}}
    if not os.path.exists(out):
        return {"harness": {"msg": (p.stdout + p.stderr)[-3000:]}}
    return json.load(open(out))


def run_dv(prop, tier, scratch, limit):
    main = os.path.join(HERE, "dv", "main.py")
    if not os.path.exists(main):
        return None
    out = os.path.join(scratch, "dv.json")
    cmd = [sys.executable, main, prop, "--repo", REPO, "--tier", tier, "--out", out]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        err = (p.stdout + p.stderr)[-3000:]
    except subprocess.TimeoutExpired:
        err = "deductive part timed out after {}s".format(limit)
    if not os.path.exists(out):
        return {"error": err, "obligations": [], "functions": []}
    return json.load(open(out))


def eval_fraction(text):
    a, _, b = str(text).partition("/")
    return float(a) / float(b or 1)


def known_findings(prop):
    res = {}
    for line in open(os.path.join(HERE, "known_findings.jsonl")):
        line = line.strip()
        if line:
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                res[d["key"]] = d
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    workers = 6
    budget = 25. if tier == "quick" else 400.
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif_{}_".format(prop))
    try:
        code = decide(prop, tier, seed, workers, budget, evdir, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def decide(prop, tier, seed, workers, budget, evdir, scratch, t0):
    with cf.ThreadPoolExecutor(workers + 1) as ex:
        fdv = ex.submit(run_dv, prop, tier, scratch, 240 if tier == "quick" else 700)
        frt = [ex.submit(run_rt, prop, seed * 1000 + w, budget, scratch, w) for w in range(workers)]
        rts = [f.result() for f in frt]
        dv = fdv.result()
    broken = next((r["broken"] for r in rts if r.get("broken")), None)
    harness = [r["harness"]["msg"] for r in rts if r.get("harness")]
    obls = (dv or {}).get("obligations", [])
    refuted = [o for o in obls if o["status"] == "refuted"]
    undecided = [o for o in obls if o["status"] not in ("proved", "refuted")]
    if (refuted or undecided) and not broken:
        # an obligation is not discharged: search the real code for a failing input for longer, steered by the verifier's models
        hints = {"n": set(), "ints": set(), "floats": set()}
        for o in refuted:
            m = o.get("counterexample") or {}
            if m.get("n"):
                hints["n"].add(m["n"])
            for t in [m.get("numbers", {})] + list(m.get("tables", {}).values()):
                for v in t.values():
                    try:
                        f = float(eval_fraction(v))
                    except ValueError:
                        continue
                    hints["ints" if f == int(f) and 1 < f < 10**6 else "floats"].add(int(f) if f == int(f) and 1 < f < 10**6 else f)
        hfile = os.path.join(scratch, "hints.json")
        json.dump({k: sorted(v)[:200] for k, v in hints.items()}, open(hfile, "w"))
        longer = (2.5 if refuted else 1.5) * budget
        with cf.ThreadPoolExecutor(workers) as ex:
            more = list(ex.map(lambda w: run_rt(prop, seed * 1000 + 500 + w, longer, scratch, "x%d" % w, hfile), range(workers)))
        rts += more
        broken = next((r["broken"] for r in more if r.get("broken")), None)
        harness += [r["harness"]["msg"] for r in more if r.get("harness")]
    known, first = {}, {}
    for r in rts:
        for k, v in r.get("known", {}).items():
            known[k] = known.get(k, 0) + v["count"]
            first.setdefault(k, v["first"])
    listed = known_findings(prop)
    unlisted = [k for k in known if k not in listed]
    nviol, lines = 0, []
    rp = os.path.join(evdir, "replay", prop + ".json")
    if os.path.exists(rp):
        os.unlink(rp)
    how = "replay: {} {}/rt/main.py {} --replay {} (PYTHONPATH={})".format(PY, HERE, prop, rp, REPO)
    if broken:
        json.dump(dict(broken, property=prop, how=how, failed_obligations=refuted + undecided), open(rp, "w"), indent=1)
        for o in (refuted + undecided)[:5]:
            print("failed obligation: {} [{}]".format(o["name"], o.get("reason", "")[:200]))
        lines.append("VIOLATION property={} replay={}".format(prop, rp))
        print("contract broken on the real code: " + broken["msg"])
        nviol = 1
    elif unlisted:
        json.dump({"property": prop, "msg": first[unlisted[0]], "keys": unlisted}, open(rp, "w"), indent=1)
        lines.append("VIOLATION property={} replay={}".format(prop, rp))
        nviol = 1
    elif refuted:
        json.dump({"property": prop, "failed_obligations": refuted,
                   "note": "the verifier refuted these obligations; no failing input of the real code was found"},
                  open(rp, "w"), indent=1)
        for o in refuted[:5]:
            print("failed obligation: {} [{}]".format(o["name"], o.get("reason", "")[:300]))
        lines.append("VIOLATION property={} replay={} no-failing-input-found".format(prop, rp))
        nviol = 1
    for k in known:
        if k in listed:
            print("KNOWN-FINDING: property={} {}".format(prop, listed[k]["what"]))
    if undecided and not nviol:
        for o in undecided[:5]:
            print("not discharged (the bounded contract decides): {} [{}]".format(o["name"], o.get("reason", "")[:200]))
    ev = evidence(prop, tier, seed, dv, rts, refuted, harness, known, time.time() - t0, nviol)
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("{} {}: {} obligations, {} discharged; {} contract evaluations on the real code; {:.0f}s".format(
        prop, tier, c.get("obligations", 0), c.get("discharged", 0), c.get("evaluations", 0), time.time() - t0))
    for l in lines:
        print(l)
    if nviol:
        return 1
    if harness:
        sys.stderr.write("undecided: the harness failed\n" + harness[0] + "\n")
        return 3
    if c.get("evaluations", 0) == 0:
        sys.stderr.write("undecided: no contract was evaluated\n")
        return 3
    if LEVELS.get(prop) == "proof" and not dv:
        sys.stderr.write("undecided: the deductive part did not run\n")
        return 3
    return 0


def evidence(prop, tier, seed, dv, rts, refuted, harness, known, wall, nviol):
    obls = (dv or {}).get("obligations", [])
    cov = {
        "evaluations": sum(r.get("evaluations", 0) for r in rts),
        "distinct_nontrivial": sum(r.get("distinct", 0) for r in rts),
        "rule": "executable contract of the property evaluated on the real code; cases drawn by rt/gen_{} from seed {}; distinct "
                "cases by their full JSON text (all generated cases satisfy the contract's precondition)".format(prop, seed),
        "samples": [s for r in rts for s in r.get("samples", [])][:3] or ["none"],
        "bounded_case_sizes": {k: sum(r.get("sizes", {}).get(k, 0) for r in rts) for k in
                               sorted({k for r in rts for k in r.get("sizes", {})}, key=int)},
    }
    if known:
        cov["known_findings_hit"] = known
    if harness:
        cov["harness_errors"] = harness[:2]
    assumptions = ["bounded part: the executable contracts sample the stated input sizes only"]
    if dv:
        cov.update({
            "obligations": len(obls), "discharged": sum(o["status"] == "proved" for o in obls),
            "refuted": [o["name"] for o in refuted],
            "undecided": [{"name": o["name"], "reason": o.get("reason", "")[:200]} for o in obls if o["status"] not in ("proved", "refuted")],
            "checker_cmd": "python3-vt {}/dv/main.py {} --repo {}".format(HERE, prop, REPO),
            "trusted_base": dv.get("trusted_base", []) or ["none"],
            "functions_under_contract": dv.get("functions", []),
            "functions_bounded_only": dv.get("bounded", []),
            "obligation_list": [{k: o[k] for k in ("name", "status", "backend", "time") if k in o} for o in obls],
            "solver_time_s": round(sum(o.get("time", 0) for o in obls), 2),
            "deductive_error": dv.get("error"),
        })
        assumptions += dv.get("assumptions", [])
    return {"property": prop, "tier": tier, "seed": seed, "level": LEVELS.get(prop, "exploration"), "coverage": cov,
            "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol}


if __name__ == "__main__":
    sys.exit(main())
