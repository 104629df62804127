"""Runs the rules of one property and reports."""
import json
import os
import pkgutil
import importlib
import resource
import sys
import time
import traceback

from . import build
from .spec import World, Report, AnalysisError

VERIF = build.VERIF
REG = {}


class Prop:
    def __init__(self, pid, progs, fn, rule, explanation):
        self.pid, self.progs, self.fn, self.rule, self.explanation = pid, progs, fn, rule, explanation


def prop(pid, progs=("elusiv",), rule=""):
    def d(fn):
        assert pid not in REG, pid
        REG[pid] = Prop(pid, progs, fn, rule, (fn.__doc__ or "").strip())
        return fn
    return d


def load_rules():
    from . import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module("vf.rules." + m.name)


def parallel(R, jobs, width=None):
    """run (name, callable(R)) jobs in forked workers and merge their reports into R"""
    width = width or int(os.environ.get("VF_JOBS", "6"))
    if width <= 1 or len(jobs) <= 1:
        for n, j in jobs:
            guard(R, n, j)
        return
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    queue = list(enumerate(jobs))
    running = {}
    res = {}
    while queue or running:
        while queue and len(running) < width:
            i, (n, j) = queue.pop(0)
            a, b = ctx.Pipe(False)

            def work(n=n, j=j, b=b):
                r = Report(R.pid, R.tier)
                guard(r, n, j)
                b.send({k: v for k, v in r.__dict__.items() if not k.startswith("_")})
                b.close()
                os._exit(0)
            p = ctx.Process(target=work)
            p.start()
            b.close()
            running[i] = (p, a, n)
        for i in list(running):
            p, a, n = running[i]
            if a.poll(0.005):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = None
                p.join()
                running.pop(i)
                if res[i] is None:
                    R.need(False, "analysis", n, "the analysis of this function completes", "", "worker ended")
    for i in sorted(res):
        if res[i] is not None:
            R.absorb(res[i])


def guard(R, name, job):
    try:
        job(R)
    except AnalysisError as e:
        R.need(False, "analysis", name, "every construct on the analysed paths is understood", "", str(e)[:400])
    except RecursionError:
        R.need(False, "analysis", name, "the analysis of this function completes", "", "recursion limit")
    except Exception as e:
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        R.need(False, "analysis", name, "the analysis of this function completes", "", "%s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], tb.filename, tb.lineno))


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["key"]: f for f in json.load(open(p))["findings"] if f["property"] == pid}


def main(argv):
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    import threading
    threading.stack_size(512 << 20)
    out = []
    t = threading.Thread(target=lambda: out.append(main2(argv)))
    t.start()
    t.join()
    return out[0] if out else 3


def main2(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VF_TIER", "quick")
    t0 = time.time()
    load_rules()
    pr = REG[pid]
    R = Report(pid, tier)
    worlds = {}
    dump_s = 0.0
    import concurrent.futures
    build.driver()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for which, (path, s) in zip(pr.progs, ex.map(build.dump, pr.progs)):
            worlds[which] = World(which.split("_")[0], path)
            dump_s += s
    t1 = time.time()
    guard(R, pid, lambda r: pr.fn(r, *[worlds[w] for w in pr.progs]))
    t2 = time.time()
    known = known_findings(pid)
    new = {}
    for k, v in R.viol.items():
        if k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
        else:
            new[k] = v
    rdir = os.path.join(build.CACHE, "replay")
    os.makedirs(rdir, exist_ok=True)
    ed = os.environ.get("VF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(ed, exist_ok=True)
    nfn = {w: len(W.P.fns) for w, W in worlds.items()}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": pr.explanation or pr.rule, "rule": pr.rule, "obligations": R.obligations, "discharged": R.discharged,
                       "rules_applied": R.rules, "analysed": R.analysed, "functions_in_dump": nfn, "samples": R.samples,
                       "known_findings": sorted(k for k in R.viol if k in known)},
          "assumptions": sorted(set(R.assumptions)), "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "analysis_s": round(t2 - t1, 2), "dump_s": round(dump_s, 2)}
    json.dump(ev, open(os.path.join(ed, pid + ".json"), "w"), indent=1)
    rp = os.path.join(rdir, pid + ".txt")
    if new:
        with open(rp, "w") as f:
            for k, v in new.items():
                f.write("property %s\nrule      %s\nwhere     %s\nviolated  %s\nlocation  %s\ndetail    %s\n\n" % (pid, v["rule"], v["where"], v["what"], v["loc"], v["detail"]))
        for i, (k, v) in enumerate(new.items()):
            if i < 12:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  rule %s | %s | %s | %s | %s" % (v["rule"], v["where"], v["what"], v["loc"], v["detail"][:300]))
        return 1
    print("OK property=%s obligations=%d discharged=%d analysed=%s analysis=%.1fs total=%.1fs" % (pid, R.obligations, R.discharged, R.analysed, t2 - t1, time.time() - t0))
    return 0
