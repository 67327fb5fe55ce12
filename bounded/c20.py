"""C20 sampling."""
from .common import *
COUNTS = dict(net=60, scm=50, factor_sample=120, conditional=120, forced=60, freq=8)

def net(rng, log):
    n = rnd_net(rng); k = rng.choice([1, 1, 2, 5, 12])
    log.update(net=n, size=k, cpt={v: c.flat() for v, c in n.cpt.items()})
    fmt = rng.random() < .5
    S = n.model.sample(k, as_pandas=fmt) if rng.random() < .8 or not fmt else n.model.sample(k)
    if fmt:
        check(isinstance(S, pd.DataFrame) and S.shape == (k, len(n.dom)) and set(S.columns) == set(n.dom), "shape of the sample", got=getattr(S, "shape", S))
        recs = [{v: S[v].tolist()[i] for v in n.dom} for i in range(k)]
    else:
        check(isinstance(S, list) and len(S) == k and all(isinstance(r, dict) and set(r) == set(n.dom) for r in S), "records of the sample", got=S)
        recs = S
    for r in recs:
        check(all(r[v] in n.dom[v] for v in n.dom), "a state outside the domain", record=r)
        for v, c in n.cpt.items(): check(c.at(r) > 0, f"an impossible value of {v}", record=r)

def scm(rng, log):
    m = rnd_scm(rng); m.model = m.model.to_multinomial(); k = rng.choice([1, 4, 10])
    log.update(scm=m, size=k)
    S = m.model.sample(k, as_pandas=False)
    check(len(S) == k and all(set(r) == set(m.dom) for r in S), "records of the sample", got=S)
    for r in S:
        check(all(m.pu[u][r[u]] > 0 for u in m.exo), "an impossible exogenous state", record=r)
        for x in m.endo:
            e = m.eq[x][tuple(r[p] for p in m.pa[x])]
            check(r[x] == e, f"{x} does not follow its equation", record=r, expected=e)
    fmt = rng.random() < .5; S = m.model.sampleEndogenous(k, as_pandas=fmt)
    if fmt:
        check(isinstance(S, pd.DataFrame) and S.shape == (k, len(m.endo)) and set(S.columns) == set(m.endo), "shape of the endogenous sample", got=getattr(S, "shape", S))
    else:
        check(isinstance(S, list) and len(S) == k and all(isinstance(r, dict) and set(r) == set(m.endo) for r in S), "records of the endogenous sample", got=S)

def ftab(rng, left_n, right_n):
    vs = names(rng, left_n + right_n); dom = domain(rng, vs, 3); left = vs[:left_n]
    order = shuffled(rng, vs); d = {v: dom[v] for v in order}; rest = {v: dom[v] for v in order if v not in left}
    tab = {}
    for a in assignments(rest):
        L = list(assignments({v: dom[v] for v in left})); w = [float(rng.choice([0, 0, 1, 2, 3])) for _ in L]
        if sum(w) == 0: w[rng.randrange(len(w))] = 1.0
        for l, x in zip(L, w): tab[key(d, {**a, **l})] = x / sum(w)
    raw = Raw(d, tab); vt = rng.choice(["numpy", "list", "treedict", "numpy1d"])
    return factor(rng, raw, vt, left=[v for v in order if v in left]), raw, left, rest

def factor_sample(rng, log):
    f, raw, left, _ = ftab(rng, rng.choice([1, 1, 2, 3]), 0); k = rng.choice([1, 3, 7]); vn = rng.random() < .6
    log.update(dom=raw.dom, tab=raw.tab, size=k, varnames=vn, vtype=f.vtype)
    S = f.sample(k, varnames=vn)
    check(isinstance(S, list) and len(S) == k, "number of samples", got=S)
    for s in S:
        if not vn: s = dict(zip(raw.dom, s))
        check(set(s) == set(raw.dom) and all(s[v] in raw.dom[v] for v in s) and raw.at(s) > 0, "an impossible sample", got=s)
    raises(lambda: f.sample(0), "an empty sample was accepted", ValueError)

def conditional(rng, log):
    f, raw, left, rest = ftab(rng, rng.choice([1, 1, 2]), rng.choice([1, 1, 2, 3])); k = rng.choice([1, 2, 5, 9]); vn = rng.random() < .7
    space = list(assignments(rest)); obs = []
    same_order = rng.random() < .5; o = shuffled(rng, list(rest)); extra = rng.random() < .3
    for _ in range(k):
        a = dict(rng.choice(space)); ks = o if same_order else shuffled(rng, o)
        b = {v: a[v] for v in ks}
        if extra: b["other"] = rng.choice(["p", "q"])
        obs.append(b)
    log.update(dom=raw.dom, left=left, tab=raw.tab, obs=obs, varnames=vn, vtype=f.vtype)
    S = f.sample_conditional([dict(b) for b in obs], varnames=vn)
    check(isinstance(S, list) and len(S) == k, "one sample per observation", got=S, expected=k)
    lo = [v for v in raw.dom if v in left]
    for s, b in zip(S, obs):
        if not vn: s = dict(zip(lo, s))
        check(set(s) == set(left), "variables of a sample", got=s)
        a = {**{v: x for v, x in b.items() if v != "other"}, **s}
        check(raw.at(a) > 0, "a sample that is impossible given its observation", sample=s, observation=b)
    raises(lambda: f.sample_conditional([]), "no observations were accepted", ValueError)
    raises(lambda: f.sample(1), "a conditional table was sampled without observations")

def forced(rng, log):
    """degenerate conditional tables: the sample is a function of the observation, so the order of the answers is visible"""
    vs = names(rng, rng.choice([2, 3, 4])); dom = domain(rng, vs, 3, mincard=2); x = rng.choice(vs)
    d = {v: dom[v] for v in shuffled(rng, vs)}; rest = {v: s for v, s in d.items() if v != x}
    fn = {key(rest, a): rng.choice(dom[x]) for a in assignments(rest)}
    raw = Raw(d, {key(d, a): 1.0 if fn[key(rest, a)] == a[x] else 0.0 for a in assignments(d)})
    f = factor(rng, raw, rng.choice(["numpy", "list", "treedict", "numpy1d"]), left=[x])
    space = list(assignments(rest)); obs = [dict(shuffled(rng, list(rng.choice(space).items()))) for _ in range(rng.choice([1, 4, 10]))]
    log.update(dom=d, left=x, fn=fn, obs=obs)
    S = f.sample_conditional(obs)
    for s, b in zip(S, obs): check(s == {x: fn[key(rest, b)]}, "sample of a degenerate table", got=s, observation=b, expected=fn[key(rest, b)])
    check(len(S) == len(obs), "one sample per observation")

def freq(rng, log):
    """frequencies of 4000 samples; the bound fails with probability below 1e-9 for a right sampler"""
    f, raw, left, _ = ftab(rng, rng.choice([1, 2]), 0); n = 4000
    log.update(dom=raw.dom, tab=raw.tab)
    S = f.sample(n, varnames=False); c = {}
    for s in S: c[tuple(s)] = c.get(tuple(s), 0) + 1
    for a in assignments(raw.dom):
        p = raw.at(a); g = c.get(key(raw.dom, a), 0) / n
        check(abs(g - p) < 0.06, "frequency", at=a, got=g, expected=p)

FAMILIES = dict(net=net, scm=scm, factor_sample=factor_sample, conditional=conditional, forced=forced, freq=freq)
