"""Discharge the obligations of one property: prove.py PROP [--tier T] [--json OUT] [--filter RE] [--jobs N] [--budget S]

Every obligation is generated by executing the current source of /repo/nnj symbolically (World), and discharged by the
equality prover (prover.py) with z3 for the integer side conditions."""
import argparse
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Hard(BaseException):
    pass


def _alarm(*a):
    raise Hard()


def summary(r):
    d = dict(id=r.name, status=r.status, paths=r.paths, vcs=r.vcs, time=round(r.time, 3), why=r.why[:3000])
    if r.cex:
        d["cex"] = r.cex
    if r.exc:
        d["refused"] = sorted(set(r.exc))
    if getattr(r, "opaque", False):
        d["opaque"] = True
    if r.gap:
        d["gap"] = True
    return d


def work(args):
    """one chunk of obligation indices"""
    prop, tier, idxs, budget_end = args
    import oblig
    import ctx
    import symnn

    global OBS
    out = []
    ctx.STATS.__init__()
    symnn.COVERED.clear()
    for i in idxs:
        o = OBS[i]
        if time.time() > budget_end:
            out.append(dict(id=o.id, status="open", why="time budget", time=0.0, vcs=0, paths=0, meta=o.meta))
            continue
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(min(o.timeout * 2 + 20, max(5, budget_end - time.time() + 5))))
        try:
            r = o.run(min(o.timeout, max(2, budget_end - time.time())))
            d = summary(r)
        except Hard:
            d = dict(id=o.id, status="open", why="hard timeout", time=float(o.timeout), vcs=0, paths=0)
        except MemoryError:
            d = dict(id=o.id, status="open", why="out of memory", time=0.0, vcs=0, paths=0)
        except BaseException as e:
            d = dict(id=o.id, status="open", why=f"engine error {type(e).__name__}: {e}"[:500], time=0.0, vcs=0, paths=0)
        finally:
            signal.alarm(0)
        d["meta"] = o.meta
        out.append(d)
    return out, dict(vars(ctx.STATS)), sorted(symnn.COVERED)


OBS = []


def prove(prop, tier="quick", jobs=6, budget=400, flt=None, progress=None):
    import symnn
    import obs
    import ctx

    global OBS
    t0 = time.time()
    res = dict(property=prop, tier=tier, results=[], load_error=None)
    try:
        W = symnn.World()
    except BaseException as e:
        res["load_error"] = f"{type(e).__name__}: {e}"
        return res
    OBS = [o for o in obs.obligations(W, prop, tier) if flt is None or re.search(flt, o.id)]
    res["generated"] = len(OBS)
    end = t0 + budget
    idx = list(range(len(OBS)))
    # interleave so that neighbouring (similar, similarly slow) obligations go to different workers
    ch = max(1, min(6, len(idx) // (jobs * 6) or 1))
    chunks = [idx[i : i + ch] for i in range(0, len(idx), ch)]
    import random

    random.Random(0).shuffle(chunks)
    stats, cov = {}, set()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=40)
    try:
        pend = [(c, pool.apply_async(work, ((prop, tier, c, end),))) for c in chunks]
        for c, p in pend:
            try:
                out, st, cv = p.get(timeout=max(30, end - time.time() + 60))
                res["results"] += out
                cov |= set(cv)
                for k, v in st.items():
                    stats[k] = stats.get(k, 0) + v
            except BaseException as e:
                for i in c:
                    res["results"].append(dict(id=OBS[i].id, status="open", why=f"worker: {type(e).__name__} {e}", time=0.0, vcs=0, paths=0, meta=OBS[i].meta))
    finally:
        pool.terminate()
    res["stats"] = stats
    res["covered"] = sorted(cov)
    res["wall"] = time.time() - t0
    return res


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--json")
    ap.add_argument("--filter")
    ap.add_argument("--jobs", type=int, default=6)
    ap.add_argument("--budget", type=float, default=400)
    a = ap.parse_args()
    r = prove(a.prop, a.tier, a.jobs, a.budget, a.filter)
    if a.json:
        with open(a.json + ".tmp", "w") as f:
            json.dump(r, f, default=str)
        os.replace(a.json + ".tmp", a.json)
    n = {}
    for x in r["results"]:
        n[x["status"]] = n.get(x["status"], 0) + 1
    slow = sorted(r["results"], key=lambda x: -x["time"])[:3]
    print(a.prop, n, "vcs", sum(x["vcs"] for x in r["results"]), "cpu %.0fs" % sum(x["time"] for x in r["results"]), "wall %.0fs" % r.get("wall", 0), r["load_error"] or "", r.get("stats"), [(s["id"], s["time"]) for s in slow])
    for x in r["results"]:
        if x["status"] != "proved":
            print("  ", x["status"], x["id"], x["why"][:200], str(x.get("cex", ""))[:200])
