"""C11 causal and counterfactual queries."""
from .common import *
from .c10 import rnd_do
from bcause.inference.causal.elimination import CausalVariableElimination
from bcause.inference.ordering import Heuristic
COUNTS = dict(causal=70, counterfactual=60, parallel=40)
THOROUGH = 10

def rnd_evidence(rng, m, avoid, do, k):
    """evidence with positive probability in the model with intervention do"""
    us = list(m.exo_space())
    u, _ = rng.choice(us)
    w = m.worlds(do, u)
    pool = [v for v in list(m.endo) + m.exo if v not in avoid]
    ev = {v: w[v] for v in rng.sample(pool, min(k, len(pool)))}
    return ev

def dist(m, events, given):
    """events: list of functions exo->tuple ; returns normalised distribution"""
    acc, z = {}, 0.0
    for u, p in m.exo_space():
        if given(u):
            k = events(u); acc[k] = acc.get(k, 0.0) + p; z += p
    return ({k: v / z for k, v in acc.items()}, z) if z > 0 else None

def compare(r, names_, doms, d, what):
    check(set(r.variables) == set(names_), f"{what}: wrong variables", got=r.variables, expected=names_)
    for s in itertools.product(*doms):
        g = r.get_value(**dict(zip(names_, s)))
        check(close(g, d.get(s, 0.0), 1e-7), f"{what}: wrong probability", at=dict(zip(names_, s)), got=g, expected=d.get(s, 0.0))

def causal(rng, log):
    m = rnd_scm(rng, every_exo=rng.random() < .8)
    do = rnd_do(rng, m)
    ts = [v for v in list(m.endo) + m.exo if v not in do]
    if not ts: return
    t = rng.sample(ts, rng.choice([1, 1, min(2, len(ts))]))
    ev = rnd_evidence(rng, m, set(t) | set(do), do, rng.choice([0, 0, 1, 2]))
    log.update(scm=m, target=t, do=do, evidence=ev)
    inf = CausalVariableElimination(m.model, rng.choice([None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE]))
    a = t[0] if len(t) == 1 and rng.random() < .6 else t
    r = inf.causal_query(a, do=do, evidence=ev) if rng.random() < .5 else (inf.query(a, do=do, evidence=ev) if ev else inf.query(a, do))
    d, _ = dist(m, lambda u: tuple(m.worlds(do, u)[v] for v in t), lambda u: all(m.worlds(do, u)[v] == x for v, x in ev.items()))
    compare(r, t, [m.dom[v] for v in t], d, "interventional query")

def counterfactual(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 2, 3]))
    do = rnd_do(rng, m)
    ts = [v for v in m.endo if v not in do]
    if not ts: return
    t = rng.sample(ts, rng.choice([1, 1, min(2, len(ts))]))
    ev = rnd_evidence(rng, m, set(), {}, rng.choice([0, 1, 2, 3]))
    log.update(scm=m, target=t, do=do, evidence=ev)
    inf = CausalVariableElimination(m.model)
    a = t[0] if len(t) == 1 and rng.random() < .6 else t
    r = inf.counterfactual_query(a, do=do, evidence=ev) if ev or rng.random() < .5 else inf.counterfactual_query(a, do)
    d, _ = dist(m, lambda u: tuple(m.worlds(do, u)[v] for v in t), lambda u: all(m.worlds({}, u)[v] == x for v, x in ev.items()))
    compare(r, [f"{v}_1" for v in t], [m.dom[v] for v in t], d, "counterfactual query")

def parallel(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([2, 2, 3]), maxcard=2)
    k = rng.choice([2, 2, 3]) if len(m.endo) < 3 else 2
    dos = [rnd_do(rng, m, 1) for _ in range(k)]
    targets, worlds = [], []
    for i in range(k):
        for v in m.endo:
            if v not in dos[i] and rng.random() < .6: targets.append(v); worlds.append(i + 1)
    if not targets: return
    targets, worlds = targets[:3], worlds[:3]
    ev = rnd_evidence(rng, m, set(), {}, rng.choice([0, 1, 2]))
    log.update(scm=m, targets=targets, worlds=worlds, do=dos, evidence=ev)
    inf = CausalVariableElimination(m.model)
    r = inf.counterfactual_query(targets, do=dos, evidence=ev, targets_subgraphs=worlds)
    d, _ = dist(m, lambda u: tuple(m.worlds(dos[w - 1], u)[v] for v, w in zip(targets, worlds)), lambda u: all(m.worlds({}, u)[v] == x for v, x in ev.items()))
    compare(r, [f"{v}_{w}" for v, w in zip(targets, worlds)], [m.dom[v] for v in targets], d, "counterfactual query in parallel worlds")

FAMILIES = dict(causal=causal, counterfactual=counterfactual, parallel=parallel)
