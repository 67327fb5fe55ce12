"""C17 interval results over several models."""
from .common import *
from .c10 import rnd_do
from .c11 import dist
from .c12 import truth, auto
from bcause.factors.imprecise import IntervalProbFactor
from bcause.inference.causal.multi import CausalMultiInference
COUNTS = dict(envelope=120, queries=30, probs=20, restrict=60, history=20, rejected=30)

def envelope(rng, log):
    vs = names(rng, rng.randint(1, 3)); dom = domain(rng, vs, 3)
    left = rng.sample(vs, rng.randint(1, len(vs)))
    raws = [raw_table(rng, dom, rng.choice(["dyadic", "float"])) for _ in range(rng.randint(1, 5))]
    fs = [factor(rng, r, rng.choice(STORES), left=left) for r in raws]
    log.update(dom=dom, left=left, values=[r.flat() for r in raws])
    I = IntervalProbFactor.from_precise(fs)
    check(list(I.domain.items()) == list(dom.items()) and list(I.variables) == list(dom), "domain of the interval factor", got=I.domain)
    check(set(I.left_vars) == set(left), "left variables", got=I.left_vars)
    for a in assignments(dom):
        lo, up = min(r.at(a) for r in raws), max(r.at(a) for r in raws)
        check(close(I.store_low.get_value(**a), lo) and close(I.store_up.get_value(**a), up), "bounds", at=a, got=(I.store_low.get_value(**a), I.store_up.get_value(**a)), expected=(lo, up))
        check([num(x) for x in I.restrict(**a).values] == [num(I.store_low.get_value(**a)), num(I.store_up.get_value(**a))], "values of the fully restricted interval factor", at=a, got=I.restrict(**a).values)

def restrict(rng, log):
    vs = names(rng, rng.randint(1, 4)); dom = domain(rng, vs, 3)
    raws = [raw_table(rng, dom, "dyadic") for _ in range(2)]
    lo = Raw(dom, {k: min(raws[0].tab[k], raws[1].tab[k]) for k in raws[0].tab}); up = Raw(dom, {k: max(raws[0].tab[k], raws[1].tab[k]) for k in raws[0].tab})
    left = rng.sample(vs, rng.randint(1, len(vs)))
    I = IntervalProbFactor(dict(dom), lo.flat() if rng.random() < .5 else lo.nested(), up.flat() if rng.random() < .5 else up.nested(), left_vars=left, vtype=rng.choice(["numpy", "list", "numpy1d"]))
    obs = {v: rng.choice(dom[v]) for v in rng.sample(vs, rng.randint(1, len(vs)))}
    log.update(dom=dom, obs=obs, low=lo.flat(), up=up.flat(), left=left)
    R = I.restrict(**obs)
    keep = {v: d for v, d in dom.items() if v not in obs}
    check(dict(R.domain) == keep and set(R.left_vars) == set(left) - set(obs), "restricted interval factor", got=R.domain, left=R.left_vars)
    for a in assignments(keep):
        check(close(R.store_low.get_value(**a), lo.at({**a, **obs})) and close(R.store_up.get_value(**a), up.at({**a, **obs})), "bounds after restriction", at=a)

def variants(rng, m, k):
    """structural models over the same graph and equations with other exogenous distributions"""
    out = []
    for _ in range(k):
        n = Scm(); n.__dict__.update(m.__dict__); n.pu = {}
        for u in m.exo:
            w = [rng.randint(1, 9) for _ in m.dom[u]]; n.pu[u] = {s: x / sum(w) for s, x in zip(m.dom[u], w)}
        M = m.model.to_multinomial().copy()
        for u in m.exo: M.set_factor(u, MultinomialFactor({u: m.dom[u]}, [n.pu[u][s] for s in m.dom[u]], vtype=m.vtype))
        n.model = M; out.append(n)
    return out

def precise(n, kind, t, do):
    d, _ = dist(n, lambda u: tuple(n.worlds(do, u)[v] for v in t), lambda u: True)
    return d

def queries(rng, log):
    m = rnd_scm(rng, n_endo=2, vtype=rng.choice(["numpy", "numpy", "list"]), deterministic=False)
    ns = variants(rng, m, rng.randint(1, 4)); do = rnd_do(rng, m, 1); t = [v for v in m.endo if v not in do]
    cf = rng.random() < .5
    log.update(scm=m, models=[n.pu for n in ns], do=do, target=t, counterfactual=cf)
    inf = CausalMultiInference([n.model for n in ns])
    q = inf.counterfactual_query if cf else inf.causal_query
    r = q(t, do); nm = [f"{v}_1" if cf else v for v in t]
    ds = [precise(n, None, t, do) for n in ns]
    for s in itertools.product(*[m.dom[v] for v in t]):
        a = dict(zip(nm, s)); e = [d.get(s, 0.0) for d in ds]
        g = [num(x) for x in r.restrict(**a).values]
        check(close(g[0], min(e), 1e-8) and close(g[1], max(e), 1e-8), "interval result", at=a, got=g, expected=(min(e), max(e)))
    inf.set_interval_result(False)
    rs = q(t, do)
    check(len(rs) == len(ns), "one precise result per model", got=len(rs))
    for f, d in zip(rs, ds):
        for s in itertools.product(*[m.dom[v] for v in t]): check(close(f.get_value(**dict(zip(nm, s))), d.get(s, 0.0), 1e-8), "precise results in order", at=s)

def probs(rng, log):
    m = rnd_scm(rng, n_endo=2, maxcard=2, vtype="numpy", kinds=["range", "str"], deterministic=False)
    ns = variants(rng, m, rng.randint(1, 4)); c, e = rng.sample(m.endo, 2)
    (tc, fc), (te, fe) = auto(c, m.dom[c]), auto(e, m.dom[e])
    log.update(scm=m, cause=c, effect=e, models=[n.pu for n in ns])
    T = [truth(n, c, e, tc, fc, te, fe) for n in ns]
    inf = CausalMultiInference([n.model for n in ns], interval_result=rng.random() < .8)
    for i, f in [(0, "prob_necessity"), (1, "prob_sufficiency"), (2, "prob_necessity_sufficiency")]:
        if any(t[i] is None for t in T): continue
        g = getattr(inf, f)(c, e) if rng.random() < .5 else getattr(inf, f)(c, e, (tc, fc), (te, fe))
        ex = [t[i] for t in T]
        if inf._interval_result: check(len(g) == 2 and close(g[0], min(ex), 1e-8) and close(g[1], max(ex), 1e-8), f, got=g, expected=(min(ex), max(ex)))
        else: check(len(g) == len(ex) and all(close(x, y, 1e-8) for x, y in zip(g, ex)), f, got=g, expected=ex)

def history(rng, log):
    m = rnd_scm(rng, n_endo=2, vtype="numpy", deterministic=False)
    do = rnd_do(rng, m, 1); t = [v for v in m.endo if v not in do]
    ns = variants(rng, m, 4); cur = ns[:rng.randint(1, 2)]
    inf = CausalMultiInference([n.model for n in cur]); hist = []
    log.update(scm=m, models=[n.pu for n in ns], do=do, history=hist)
    for _ in range(3):
        k = rng.choice(["add", "set", "query"]); hist.append(k)
        if k == "add": x = rng.choice(ns); inf.add_models([x.model]); cur = cur + [x]
        elif k == "set": cur = rng.sample(ns, rng.randint(1, 3)); inf.set_models([n.model for n in cur])
        check([id(x) for x in inf.models] == [id(n.model) for n in cur], "list of models")
        r = inf.causal_query(t, do); ds = [precise(n, None, t, do) for n in cur]
        for s in itertools.product(*[m.dom[v] for v in t]):
            e = [d.get(s, 0.0) for d in ds]; g = [num(x) for x in r.restrict(**dict(zip(t, s))).values]
            check(close(g[0], min(e), 1e-8) and close(g[1], max(e), 1e-8), f"interval result after {k}", got=g, expected=(min(e), max(e)))

def rejected(rng, log):
    dom = domain(rng, ["A", "B"], 3, mincard=2)
    f = MultinomialFactor(dict(dom), .5); g = MultinomialFactor({**dom, "B": dom["B"] + [dom["B"][0]]} if rng.random() < .5 else {"A": dom["A"]}, .5)
    log.update(dom=dom)
    raises(lambda: IntervalProbFactor.from_precise([f, g]), "factors with different domains were accepted", ValueError)
    raises(lambda: CausalMultiInference([]).compile(), "no model was accepted", ValueError)
    raises(lambda: IntervalProbFactor(dict(dom), np.zeros([len(d) for d in dom.values()]), np.zeros([len(d) for d in dom.values()] + [2])), "bounds of different dimensions were accepted")

FAMILIES = dict(envelope=envelope, queries=queries, probs=probs, restrict=restrict, history=history, rejected=rejected)
