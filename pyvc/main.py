"""pyvc: symbolic verification-condition generator for the real functions of /repo against sidecar contracts."""
import sys, os, json, time, argparse, traceback, importlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from pyvc.core import *
from pyvc.interp import Interp
MODS = ["trees", "stores", "factors", "access", "graphs", "models", "causal", "simplify", "functions", "learning", "multi", "interval", "elimination", "ordering", "roles", "data", "gradient", "sampling"]
def load():
    from pyvc.contracts import base
    for m in MODS: importlib.import_module("pyvc.contracts." + m)
    return base.REG

def verify(c, case, repo, budget, timeout, without=()):
    E = Engine(timeout=timeout); it = Interp(E, repo, {k: x for k, x in load().items() if k not in without})
    E.deadline = time.time() + budget
    t0 = time.time(); why = None
    try:
        fn = c.fn(it) if hasattr(c, "fn") else it.get_func(c.key); it.verifying = c.key
        it.loop_inv = dict(getattr(c, "loops", {}))
        def path():
            a = c.args(it, case)
            E.vac = getattr(E, "vac", []); 
            if not E.vac: E.vac.append(E.check(mbqi=True, timeout=3000))
            it.depth = 0
            try:
                try: r = c.call(it, fn, a) if hasattr(c, "call") else it.call_func(fn, [], dict(a[0]))
                except PyRaise as e: out = Out([], "raise", e)
                else: out = Out([], "ok", r)
            finally: it.depth = 0
            it.depth = 1
            c.post(it, case, a, out); it.depth = 0
        n0 = E.paths
        E.explore_top(path, it.th_init)
    except Unsupported as e: why = f"outside the verifier's reach: {e}"
    except z3.Z3Exception as e:
        why = f"solver: {e}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    except RecursionError: why = "recursion limit"
    except Exception as e:
        why = f"internal: {type(e).__name__}: {e}"
        if os.environ.get("PYVC_DEBUG"): traceback.print_exc()
    obs = list(E.obligations.values())
    for o in obs: o["function"] = c.key + (f" [{case}]" if case else "")
    return dict(obligations=obs, why=why, function=c.key, case=case, s=time.time() - t0, solver_s=E.solver_s, queries=E.queries, paths=E.paths,
                vacuity=str(E.vac[0]) if getattr(E, "vac", None) else "none", assumptions=sorted(E.assumptions), inlined=sorted(E.inlined), used=sorted(E.used_contracts))

def job(args):
    key, case, repo, budget, timeout, *w = args
    return verify(load()[key], case, repo, budget, timeout, *w)
def is_helper(c):
    "not part of the interface: its contract may change together with its callers"
    n = c.key.split(":")[1].split(".")[-1]
    return getattr(c, "helper", False) or "<locals>" in c.key or n.startswith("_") and not n.endswith("__")
def helper_check(results, reg, pool, repo, budget, timeout):
    """a refuted obligation of a private helper: the functions that use the helper are verified again with its body executed in place; the
    obligation counts unless all of them hold"""
    bad = {}
    for r in results:
        if is_helper(reg[r["function"]]) and any(o["status"] == "refuted" for o in r["obligations"]): bad.setdefault(r["function"], []).append(r)
    if not bad: return results
    users = [(r["function"], r["case"]) for r in results if set(r["used"]) & set(bad) and r["function"] not in bad]
    again = pool.map(job, [(k, c, repo, budget, timeout, tuple(bad)) for k, c in users], chunksize=1)
    state = {}      # helper: how its users fare
    for r in again:
        st = "refuted" if any(o["status"] == "refuted" for o in r["obligations"]) else "undecided" if r["why"] or any(o["status"] != "discharged" for o in r["obligations"]) else "hold"
        used0 = next(x for x in results if (x["function"], x["case"]) == (r["function"], r["case"]))["used"]
        for h in set(used0) & set(bad): state.setdefault(h, set()).add(st)
    out = [r for r in results if (r["function"], r["case"]) not in users] + again
    for h, rs in bad.items():
        shape = any(o["status"] == "refuted" and "TypeError" in str(o["model"]) for r in rs for o in r["obligations"])      # (called in another way)
        if state.get(h) == {"hold"} or shape and "refuted" not in state.get(h, ()):
            for r in rs:
                for o in r["obligations"]:
                    if o["status"] == "refuted": o.update(status="unsupported", why="the contract of this private helper no longer describes it; " + ("the functions that use it hold with its body executed in place" if state.get(h) == {"hold"} else "it is called in another way, and the functions that use it are undecided"))
    return out

TRUSTED = ["the symbolic interpreter of Python (pyvc/interp.py, ops.py) and its models of builtins, numpy, networkx, functools, collections (pyvc/lib.py)",
           "the theories of pyvc/theory.py: finite aggregates, joint assignments, trees, named axes",
           "z3 5.3.2"]
def run_property(prop, repo, tier, budget=None, jobs=8):
    """all the obligations that serve a property: the functions listed for it and, transitively, the functions whose contracts
    they rely on"""
    reg = load(); t0 = time.time()
    budget = budget or (150 if tier == "quick" else 900); timeout = 4000 if tier == "quick" else 20000
    keys = [k for k, c in reg.items() if prop in c.props and not c.trusted]
    done, results, trusted = set(), [], {}
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        while True:
            todo = [(k, case, repo, budget, timeout) for k in keys if k not in done for case in reg[k].cases]
            if not todo: break
            done |= set(keys); more = set()
            for r in pool.imap_unordered(job, sorted(todo, key=lambda t: -getattr(reg[t[0]], "cost", 1))):
                results.append(r); more |= set(r["used"])
            for k in more:
                if reg[k].trusted: trusted[k] = reg[k].why_trusted
            keys = [k for k in sorted(more) if not reg[k].trusted]
        results = helper_check(results, reg, pool, repo, budget, timeout)
    return summarise(prop, results, trusted, time.time() - t0)
def summarise(prop, results, trusted, wall):
    obs, assumptions, vac, log = [], set(), {}, []
    for r in sorted(results, key=lambda r: (r["function"], str(r["case"]))):
        fn = r["function"] + (f" [{r['case']}]" if r["case"] else "")
        vac[fn] = {"sat": "preconditions satisfiable (model found)", "unsat": "VACUOUS", "unknown": "no model found within the limit", "none": "not reached"}[r["vacuity"]]
        for o in r["obligations"]:
            o = dict(o, function=fn, s=round(o["s"], 3))
            if r["vacuity"] == "unsat" and o["status"] == "discharged": o.update(status="unsupported", why="vacuous: the preconditions are contradictory")
            if r["why"] and o["status"] == "discharged": o.update(status="unsupported", why="other paths of the function are undecided: " + r["why"])
            obs.append(o)
        if r["why"]: obs.append(dict(name="all paths of the function", function=fn, status="unsupported", why=r["why"], paths=r["paths"], s=0, model=None))
        elif not r["obligations"]: obs.append(dict(name="obligations generated", function=fn, status="unsupported", why="no obligation was generated", paths=r["paths"], s=0, model=None))
        assumptions |= set(r["assumptions"]); log.append(f"{fn}: {r['paths']} paths, {r['queries']} queries, {r['solver_s']:.1f} s solver, {r['s']:.1f} s; inlined {r['inlined']}; contracts used {r['used']}" + (f"; {r['why']}" if r["why"] else ""))
    return dict(property=prop, obligations=obs, assumptions=sorted(assumptions), trusted=TRUSTED + [f"contract assumed, body not verified: {k} ({w})" for k, w in sorted(trusted.items())],
                functions=sorted({r["function"] for r in results}), inlined=sorted({k for r in results for k in r["inlined"]}), solver_s=sum(r["solver_s"] for r in results), backend="pyvc (symbolic execution of the current source) + z3 5.3.2", vacuity=vac, log=log, wall_s=round(wall, 1))

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("what", nargs="+"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--case")
    ap.add_argument("--budget", type=float); ap.add_argument("--timeout", type=int, default=4000); ap.add_argument("--out"); ap.add_argument("-b", "--brief", action="store_true"); ap.add_argument("--tier", default="quick"); ap.add_argument("--jobs", type=int, default=8); a = ap.parse_args()
    if a.out:
        r = run_property(a.what[0], a.repo, a.tier, a.budget, a.jobs)
        json.dump(r, open(a.out + ".tmp", "w"), indent=1); os.replace(a.out + ".tmp", a.out)
        sys.exit(0)
    reg = load()
    for k, c in reg.items():
        if c.trusted or not any(w in k or w in c.props or w == "all" for w in a.what): continue
        for case in c.cases:
            if a.case and str(case) != a.case: continue
            r = verify(c, case, a.repo, a.budget or 200, a.timeout)
            print(f"== {k} {case or ''}: {r['s']:.1f}s solver {r['solver_s']:.1f}s queries {r['queries']} paths {r['paths']} vac {r['vacuity']} {r['why'] or ''}")
            for o in r["obligations"]:
                if a.brief and o["status"] == "discharged": continue
                print("  ", o["status"], o["name"], f"paths={o['paths']} {o['s']:.2f}s")
                if o["status"] != "discharged" and os.environ.get("PYVC_DEBUG"): print("     ", o["model"])
