"""check driver: runner.py PROPERTY  (see ../check)

The prover (prove.py) discharges every obligation generated from the current source; the run-time contracts (rt.py)
evaluate the same postconditions on the real code: they replay counterexamples, stand in (bounded) for obligations outside
the prover's reach, and cross-check the model of torch."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get("NNJ_REPO", "/repo")
VENV = "/opt/venv/bin/python"
EV = os.environ.get("NNJ_EVIDENCE", os.path.join(VERIF, "evidence"))

TRUSTED = [
    "contracts of the torch operations (engine/symtorch.py, engine/symnn.py), assumed; cross-checked against real torch by engine/crosscheck.py",
    "equality prover over sums of products with symbolic bounds (engine/prover.py, sp.py, dims.py, poly.py)",
    "z3 (integer side conditions)",
    "rewriting of the executed source: loops over symbolic ranges, list collection in them, list displays and comprehensions, `is`, `a[k] += v`, coverage notes (symnn.LoopRewriter)",
    "loops over an unknown number of layers: cut by invariants found and checked by engine/depth.py (the recurrence of the prefix and suffix entities is the specification of composition)",
    "CPython's execution of the rewritten source on symbolic values",
]
ASSUMED = [
    "floating point numbers are treated as real numbers (no rounding, overflow, nan or infinity); dtypes are tracked separately",
    "every dimension is at least 1; integers are mathematical",
    "points where the derivative does not exist take the value autograd uses (ReLU and Softplus threshold, pooling ties)",
]


def start(cmd, env=None):
    e = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    f = tempfile.TemporaryFile("w+")
    return subprocess.Popen(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, text=True, start_new_session=True), f


def finish(pf, out, timeout):
    p, f = pf
    err = None
    try:
        p.wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        err = "timeout"
    try:
        os.killpg(p.pid, 9)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()
    f.seek(0)
    txt = f.read()
    f.close()
    try:
        with open(out) as g:
            return json.load(g), None
    except (OSError, ValueError):
        return None, err or txt[-4000:] or "no output"


def known(prop, fail, kf):
    for k in kf:
        if k["property"] == prop and k["case"] in str(fail.get("case")) and k["what"] in str(fail.get("what")):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    t0 = time.time()
    limit = 3000 if thorough else 640
    os.makedirs(EV, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="nnjcheck")
    try:
        return check(prop, tier, seed, thorough, t0, limit, tmp)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def rt(tmp, prop, tier, seed, name, *extra):
    out = os.path.join(tmp, name)
    return start([VENV, "-W", "ignore", os.path.join(HERE, "rt.py"), prop, "--tier", tier, "--seed", str(seed), "--json", out, *extra]), out


def check(prop, tier, seed, thorough, t0, limit, tmp):
    left = lambda: limit - (time.time() - t0)
    r_p, r_out = rt(tmp, prop, tier, seed, "rt.json", "--budget", str(limit * 0.6))
    p_out = os.path.join(tmp, "prove.json")
    pcmd = [sys.executable, "-W", "ignore", os.path.join(HERE, "prove.py"), prop, "--tier", tier, "--json", p_out, "--jobs", "7", "--budget", str(int(limit * 0.62))]
    p_p = start(pcmd)
    x_p = start([sys.executable, "-W", "ignore", os.path.join(HERE, "crosscheck.py")]) if thorough else None
    pr, perr = finish(p_p, p_out, left() * 0.85)
    rr, rerr = finish(r_p, r_out, left() * 0.9)

    cross = None
    if x_p is not None:
        try:
            x_p[0].wait(timeout=max(1, left() * 0.5))
        except subprocess.TimeoutExpired:
            x_p[0].kill()
        x_p[1].seek(0)
        cross = [l for l in x_p[1].read().splitlines() if "agree with torch" in l or l.startswith("MISMATCH")][-4:]
        x_p[1].close()
    results = (pr or {}).get("results", [])
    proved = [x for x in results if x["status"] == "proved"]
    refuted = [x for x in results if x["status"] == "refuted" and not x.get("opaque") and not x.get("gap")]
    soft = [x for x in results if x["status"] == "refuted" and (x.get("opaque") or x.get("gap"))]
    opened = [x for x in results if x["status"] == "open"] + soft
    load_error = perr or (pr or {}).get("load_error")

    evals = cases = nontriv = refused = 0
    fails, samples = [], []

    def add(r):
        nonlocal evals, cases, nontriv, refused
        evals += r["evaluations"]
        cases += r["cases"]
        nontriv += r["nontrivial"]
        refused += r["refused"]
        fails.extend(r["fails"])
        samples.extend(r["samples"])

    if rr is None:
        if rerr == "timeout":
            print("run-time contracts: no answer within the time limit")
        else:
            # the package does not load or its contracts cannot be evaluated at all
            fails.append({"property": prop, "case": "import and evaluation of the package", "what": "the contracts could not be evaluated on the real code", "output": rerr})
    else:
        add(rr)
    # replay of counterexamples on the real code, with their sizes
    replayed = 0
    deep = [x for x in opened if x["status"] == "open" and (x.get("meta") or {}).get("kind") == "depth"]
    if (refuted or soft or deep) and not fails and left() > 60:
        import replay

        cs = replay.cases(refuted + soft + deep)
        if cs["leaf"] or cs["net"]:
            cf = os.path.join(tmp, "cases.json")
            json.dump(cs, open(cf, "w"))
            q, out = rt(tmp, prop, "quick", seed, "rt2.json", "--cases", cf, "--budget", "150")
            r2, _ = finish(q, out, min(200, left() - 10))
            if r2 is not None:
                replayed = len(cs["leaf"]) + len(cs["net"])
                add(r2)
    # bounded stand-in for what the prover did not decide: a deeper run of the same contracts
    deeper = False
    if (opened or load_error or refuted) and not fails and not thorough and left() > 120:
        q, out = rt(tmp, prop, "thorough", seed + 1, "rt3.json", "--budget", "100")
        r3, _ = finish(q, out, min(170, left() - 30))
        if r3 is not None:
            deeper = True
            add(r3)

    try:
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    except (OSError, ValueError, KeyError):
        kf = []
    news = []
    for f in fails:
        k = known(prop, f, kf)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["summary"]))
        else:
            news.append(f)

    stats = (pr or {}).get("stats", {})
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if results and not load_error else "exploration",
        "coverage": {
            "obligations": len(results), "discharged": len(proved), "refuted": len(refuted), "undecided": len(opened),
            "verification_conditions": sum(x.get("vcs", 0) for x in results), "paths": sum(x.get("paths", 0) for x in results),
            "checker_cmd": "cd /verif && PYTHONHASHSEED=0 python3-vt engine/prove.py %s --tier %s" % (prop, tier),
            "trusted_base": TRUSTED, "back_end": "engine/prover.py with z3 (python bindings)",
            **({"torch_contracts_crosscheck": cross} if cross is not None else {}),
            "solver_queries": stats.get("queries", 0), "solver_s": round(stats.get("time", 0.0), 2), "solver_unknown": stats.get("unknown", 0),
            "functions_under_contract": (pr or {}).get("covered", []),
            "undecided_obligations": [{"id": x["id"], "why": x["why"][:200]} for x in opened[:20]],
            "bounded_stand_in": "run-time contracts on the real code, never counted as discharged",
            "evaluations": evals, "distinct_nontrivial": nontriv,
            "rule": "one evaluation = one postcondition evaluated on the real code against torch.autograd; non-trivial = non-zero expected value",
            "samples": samples[:4] + [x["id"] for x in proved[:3]], "refusals_accepted": refused, "replayed_counterexamples": replayed,
        },
        "assumptions": ASSUMED + (["the prover could not load the source: " + str(load_error)[:300]] if load_error else []),
        "wall_s": round(time.time() - t0, 2), "violations": len(news) + len(refuted),
    }
    with open(os.path.join(EV, prop + ".json.tmp"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(os.path.join(EV, prop + ".json.tmp"), os.path.join(EV, prop + ".json"))
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided; %d run-time evaluations, %d failed; %.0f s" % (prop, len(results), len(proved), len(refuted), len(opened), evals, len(fails), time.time() - t0))
    for x in opened[:5]:
        print("  undecided: %s: %s" % (x["id"], x["why"][:160]))
    if load_error:
        print("  prover: " + str(load_error)[:300])
    if news or refuted:
        rp = os.path.join(EV, "replay_%s.json" % prop)
        d = {"property": prop, "failed_obligations": [{k: x.get(k) for k in ("id", "why", "cex", "vcs")} for x in refuted[:20]], "prover_cmd": pcmd[1:]}
        if news:
            d.update({"failing_input": news[0], "more": [{"case": f.get("case"), "what": f.get("what")} for f in news[1:10]],
                      "replay_cmd": "cd /verif && %s -W ignore engine/rt.py %s --seed %d --only '%s'" % (VENV, prop, seed, news[0].get("case"))})
        with open(rp, "w") as f:
            json.dump(d, f, indent=1, default=str)
        for x in refuted[:3]:
            print("failed obligation: %s: %s" % (x["id"], x["why"][:300]))
        if news:
            print("failing input: %s | %s" % (news[0].get("case"), str(news[0].get("what"))[:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if news else " no-failing-input-found"))
        return 1
    print("OK property=%s" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
