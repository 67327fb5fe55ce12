#!/usr/bin/env python3
"""check of one property:  run.py PROPERTY

1. deductive part: verification conditions are generated from the current source of /repo (pyvc) and discharged by z3;
2. bounded part: the real code is run on generated inputs against brute-force oracles (finds failing inputs for the
   violated contracts, and stands in for functions outside the reach of the verifier; always labelled bounded).

exit 0: every obligation that the verifier decides holds and no failing input was found.
exit 1 + VIOLATION line: a failing input, or a refuted obligation without one (no-failing-input-found)."""
import json, os, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY, PYVT = "/opt/venv/bin/python", shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
ENV = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
ENV.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_REPO=REPO)

def load(path, default=None):
    try: return json.load(open(path))
    except Exception: return default

def start_deductive(prop, tmp, tier):
    main = os.path.join(VERIF, "pyvc", "main.py")
    if not os.path.exists(main): return None
    out = os.path.join(tmp, "vc.json")
    cmd = [PYVT, main, prop, "--repo", REPO, "--out", out, "--tier", tier]
    return subprocess.Popen(cmd, stdout=open(os.path.join(tmp, "vc.log"), "w"), stderr=subprocess.STDOUT, env=ENV, cwd=tmp), out, cmd

def start_bounded(prop, tmp, tier, seed, workers, scale=1.0, limit=None, tag=""):
    ps = []
    for i in range(workers):
        out = os.path.join(tmp, f"b{tag}{i}.json")
        env = dict(ENV, PYTHONHASHSEED=str((seed * 7919 + i * 104729) % 4294967295))
        cmd = [PY, os.path.join(VERIF, "bounded", "runner.py"), prop, "--out", out, "--worker", str(i), "--workers", str(workers), "--tier", tier,
               "--seed", str(seed), "--scale", str(scale)] + (["--limit", str(limit)] if limit else [])
        ps.append((subprocess.Popen(cmd, stdout=open(os.path.join(tmp, f"b{tag}{i}.log"), "w"), stderr=subprocess.STDOUT, env=env, cwd=tmp), out))
    return ps

def collect(ps, deadline):
    res = dict(cases={}, distinct=0, failures=[], samples=[], truncated=False, broken=[])
    for p, out in ps:
        try: p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); res["truncated"] = True
        r = load(out)
        if r is None:
            res["broken"].append(open(out.replace(".json", ".log")).read()[-1500:]); continue
        for k, v in r["cases"].items(): res["cases"][k] = res["cases"].get(k, 0) + v
        res["distinct"] += r["distinct"]; res["failures"] += r["failures"]; res["samples"] += r["samples"][:1]; res["truncated"] |= r["truncated"]
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evid, replay = os.path.join(VERIF, "evidence", f"{prop}.json"), os.path.join(VERIF, "evidence", f"{prop}.replay.json")
    for p in (evid, replay):
        if os.path.exists(p): os.remove(p)
    tmp = tempfile.mkdtemp(prefix="verif_")
    try: return check(prop, tier, seed, t0, evid, replay, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, t0, evid, replay, tmp):
    limit = 420 if tier == "quick" else 3600
    ded = start_deductive(prop, tmp, tier)
    workers = 7 if tier == "quick" else 8
    b = collect(start_bounded(prop, tmp, tier, seed, workers, limit=45 if tier == "quick" else 900), t0 + (200 if tier == "quick" else 3000))
    vc, vc_err, cmd = None, None, []
    if ded:
        p, out, cmd = ded
        try: p.wait(max(5, t0 + limit - time.time()))
        except subprocess.TimeoutExpired: p.kill(); vc_err = "time limit"
        vc = load(out)
        if vc is None: vc_err = vc_err or open(os.path.join(tmp, "vc.log")).read()[-2000:]
    if b["broken"] and not b["failures"] and len(b["broken"]) < workers: pass
    refuted = [o for o in (vc or {}).get("obligations", []) if o["status"] == "refuted"]
    undecided = ded and (vc is None or any(o["status"] in ("unknown", "unsupported") for o in vc.get("obligations", [])))
    if (refuted or undecided) and not b["failures"]:
        # look harder for an input on which the contract fails: it is refuted, or the verifier does not decide it for this code
        b2 = collect(start_bounded(prop, tmp, tier, seed + 1000, 8, scale=6 if refuted else 4, limit=150 if refuted else 90, tag="x"), time.time() + 240)
        b["failures"] += b2["failures"]; b["distinct"] += b2["distinct"]
        for k, v in b2["cases"].items(): b["cases"][k] = b["cases"].get(k, 0) + v
    known = [l.strip() for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) if l.startswith(f"known: property={prop} ")] if os.path.exists(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) else []
    for l in known: print("KNOWN-FINDING: " + l[len("known: "):])
    everything_broken = len(b["broken"]) == workers
    violation = bool(b["failures"]) or bool(refuted) or everything_broken
    write_evidence(prop, tier, seed, t0, evid, b, vc, vc_err, cmd, violation)
    if b["failures"]:
        f = b["failures"][0]
        f["obligations_refuted"] = refuted
        f["replay_cmd"] = f"{PY} {os.path.join(VERIF, 'bounded', 'runner.py')} --replay {replay}"
        json.dump(f, open(replay, "w"), indent=1)
        for x in b["failures"][:3]: print(f"failing input: {x['family']} #{x['index']} hashseed {x['hashseed']}: {x['kind']}: {x['message'][:500]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if everything_broken:
        # the public interface that the harness drives cannot even be imported
        json.dump(dict(property=prop, kind="the code cannot be loaded or driven", output=b["broken"][0]), open(replay, "w"), indent=1)
        print(b["broken"][0]); print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if refuted:
        json.dump(dict(property=prop, kind="refuted proof obligations", obligations=refuted, verifier_output=vc.get("log", "")), open(replay, "w"), indent=1)
        for o in refuted[:5]: print(f"refuted obligation: {o['name']} ({o['function']}): {str(o.get('model', ''))[:600]}")
        print(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        return 1
    return 0

def write_evidence(prop, tier, seed, t0, evid, b, vc, vc_err, cmd, violation):
    cov = dict(bounded=dict(label="bounded: real code run on generated inputs, compared with brute-force oracles; never counted as proved",
                            evaluations=sum(b["cases"].values()), distinct_nontrivial=b["distinct"], families=b["cases"], time_limit_hit=b["truncated"],
                            workers_without_result=len(b["broken"]), samples=b["samples"][:3]))
    man = load(os.path.join(VERIF, "MANIFEST.json"), {}) or {}
    level = next((c["level"] for c in man.get("checks", []) if c["property"] == prop), "exploration")
    obs = (vc or {}).get("obligations", [])
    assumptions = list((vc or {}).get("assumptions", []))
    assumptions.append("machine floating point is treated as the real numbers in the obligations; the bounded part compares with a relative tolerance")
    cov.update(evaluations=sum(b["cases"].values()), distinct_nontrivial=b["distinct"], samples=b["samples"][:3],
               rule="each family builds random models, tables or graphs (odd names, all kinds of states, shuffled orders) and compares with a brute-force oracle; a case counts as distinct by the hash of its description")
    if vc is not None:
        cov.update(obligations=len(obs), discharged=sum(o["status"] == "discharged" for o in obs), checker_cmd=" ".join(cmd), trusted_base=vc.get("trusted", []),
                   functions_under_contract=vc.get("functions", []), undecided=[dict(name=o["name"], function=o["function"], why=o.get("why", o["status"])) for o in obs if o["status"] in ("unknown", "unsupported")],
                   refuted=[o["name"] for o in obs if o["status"] == "refuted"], solver_time_s=round(vc.get("solver_s", 0), 2), back_end=vc.get("backend", ""),
                   obligation_list=[dict(name=o["name"], function=o["function"], status=o["status"], paths=o.get("paths"), s=o.get("s")) for o in obs], vacuity=vc.get("vacuity", {}))
    elif vc_err: cov["deductive_part"] = "no result: " + vc_err
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=int(violation)), open(evid, "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
