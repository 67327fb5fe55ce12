"""Bounded layer: runs the case families of one property against the real code.

  runner.py PROPERTY --out OUT.json [--worker I --workers N] [--tier quick|thorough] [--seed S]
  runner.py --replay REPLAY.json

Case (property, family, seed, index) is fully determined by these four values (and PYTHONHASHSEED)."""
import argparse, hashlib, importlib, io, json, os, random, signal, sys, time, traceback, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

class Hang(Exception): pass
def _alarm(*a): raise Hang("no answer within the time limit of one case")
CASE_LIMIT = 90

def case_rng(prop, fam, seed, index):
    h = hashlib.sha256(f"{prop}/{fam}/{seed}/{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big")), int.from_bytes(h[8:12], "big")

def run_case(prop, mod, fam, seed, index):
    """Returns None or a failure record."""
    import numpy as np
    rng, npseed = case_rng(prop, fam, seed, index)
    np.random.seed(npseed); random.seed(npseed)
    from bounded.common import Violation
    log = {}
    try:
        signal.signal(signal.SIGALRM, _alarm); signal.alarm(CASE_LIMIT)
        with contextlib.redirect_stdout(io.StringIO()):
            info = mod.FAMILIES[fam](rng, log)
        return None, info
    except Hang as e:
        return dict(kind="no answer", message=str(e)), None
    except Violation as e:
        return dict(kind="wrong result", message=str(e)), None
    except Exception as e:
        tb = traceback.format_exc()
        return dict(kind="exception", message=f"{type(e).__name__}: {e}", traceback=tb[-3000:]), None
    finally:
        signal.alarm(0)
        run_case.log = log

def load(prop):
    return importlib.import_module(f"bounded.{prop.lower()}")

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--out"); ap.add_argument("--worker", type=int, default=0)
    ap.add_argument("--workers", type=int, default=1); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--replay"); ap.add_argument("--limit", type=float, default=None); ap.add_argument("--only"); ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        if "family" not in r:
            print("this replay file records failed proof obligations; no failing input:", json.dumps(r, indent=1)); return 1
        if os.environ.get("PYTHONHASHSEED") != str(r["hashseed"]):
            os.environ["PYTHONHASHSEED"] = str(r["hashseed"]); os.execv(sys.executable, [sys.executable] + sys.argv)
        f, _ = run_case(r["property"], load(r["property"]), r["family"], r["seed"], r["index"])
        print("FAILS:" if f else "passes", json.dumps(f, indent=1) if f else ""); return 1 if f else 0
    t0 = time.time()
    mod = load(a.prop)
    limit = a.limit or (mod.LIMIT.get(a.tier) if hasattr(mod, "LIMIT") else None) or (60 if a.tier == "quick" else 500)
    fams = [a.only] if a.only else list(mod.FAMILIES)
    counts = getattr(mod, "COUNTS", {})
    mult = 5 if a.tier == "quick" else getattr(mod, "THOROUGH", 25)
    res = dict(cases={}, distinct=0, failures=[], samples=[], hashseed=os.environ.get("PYTHONHASHSEED"), truncated=False)
    digests = set()
    todo = {f: max(1, int(counts.get(f, 60) * mult * a.scale)) for f in fams}
    # interleave the families so that a time limit cuts all of them evenly
    done = {f: 0 for f in fams}
    nfail = 0
    while any(done[f] < todo[f] for f in fams) and nfail < 3:
        for f in fams:
            chunk = min(10, todo[f] - done[f])
            for _ in range(chunk):
                index = done[f] * a.workers + a.worker
                done[f] += 1
                fl, info = run_case(a.prop, mod, f, a.seed, index)
                log = run_case.log
                d = hashlib.sha1(repr((f, sorted((k, str(v)) for k, v in log.items()))).encode()).hexdigest()
                if log: digests.add(d)
                if fl:
                    nfail += 1
                    res["failures"].append(dict(property=a.prop, family=f, seed=a.seed, index=index, hashseed=os.environ.get("PYTHONHASHSEED", "random"),
                                                case={k: str(v)[:2000] for k, v in log.items()}, **fl))
                    if nfail >= 3: break
                elif len(res["samples"]) < 2 and log and index > 3:
                    res["samples"].append(dict(family=f, index=index, case={k: str(v)[:400] for k, v in log.items()}))
            if nfail >= 3: break
            if time.time() - t0 > limit: res["truncated"] = True; break
        if res["truncated"]: break
    res["cases"] = done; res["distinct"] = len(digests); res["digests"] = sorted(digests)[:0]; res["wall"] = time.time() - t0
    json.dump(res, open(a.out, "w"))
    return 1 if res["failures"] else 0

if __name__ == "__main__":
    sys.exit(main())
