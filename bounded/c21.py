"""C21 inference from data."""
from .common import *
from bcause.util.datautils import to_counts, filter_data
from bcause.inference.probabilistic.datainference import LaplaceInference
COUNTS = dict(counts=150, missing=80, filt=80, laplace=120, condlap=120)

def frame(rng, n=None, kinds=None):
    vs = names(rng, n or rng.choice([1, 2, 3, 4])); dom = domain(rng, vs, 3, kinds=kinds or ["str", "range", "range1", "ints", "bool", "strmix"])
    k = rng.choice([1, 2, 5, 12, 30])
    recs = [{v: rng.choice(dom[v]) for v in vs} for _ in range(k)]
    cols = shuffled(rng, vs); df = pd.DataFrame(recs, columns=cols)
    if rng.random() < .3: df.index = shuffled(rng, range(100, 100 + k))
    return vs, dom, recs, df

def counts(rng, log):
    vs, dom, recs, df = frame(rng)
    sub = rng.sample(vs, rng.randint(1, len(vs))); d = {v: list(dom[v]) for v in sub}
    for v in sub:
        if rng.random() < .3: rng.shuffle(d[v])
    norm = rng.random() < .4; log.update(dom=d, records=recs, normalize=norm, columns=list(df.columns))
    before = df.copy(); dd = {v: list(s) for v, s in d.items()}
    f = to_counts(d, df, normalize=True) if norm else to_counts(d, df)
    cnt = lambda a: sum(all(r[v] == a[v] for v in d) for r in recs) / (len(recs) if norm else 1)
    expect_table(f, dd, cnt, "counts")
    check(before.equals(df) and d == dd, "the data or the domains changed")
    z = to_counts(d); expect_table(z, dd, lambda a: 0.0, "counts without data")

def missing(rng, log):
    vs, dom, recs, df = frame(rng, kinds=["str"])
    m = [dict(r) for r in recs]
    for r in m:
        for v in vs:
            if rng.random() < .3: r[v] = None if rng.random() < .5 else float("nan")
    df = pd.DataFrame(m, columns=list(df.columns)); isna = lambda x: x is None or x != x
    sub = rng.sample(vs, rng.randint(1, len(vs)))
    norm = rng.random() < .4
    log.update(dom=dom, records=m, variables=sub, normalize=norm)
    before = df.copy(); src = {v: list(dom[v]) for v in sub}
    f = to_counts(src, df, normalize=norm)
    check(src == {v: list(dom[v]) for v in sub} and before.equals(df), "the data or the domains changed")
    e = {v: list(dom[v]) + (["nan"] if any(isna(r[v]) for r in m) else []) for v in sub}
    expect_table(f, e, lambda a: sum(all(("nan" if isna(r[v]) else r[v]) == a[v] for v in sub) for r in m) / (len(m) if norm else 1), "counts with missing values")

def filt(rng, log):
    vs, dom, recs, df = frame(rng); ks = rng.sample(vs, rng.randint(0, len(vs))); obs = {v: rng.choice(dom[v]) for v in ks}
    log.update(records=recs, obs=obs)
    before = df.copy(); g = filter_data(df, obs)
    e = [i for i, r in enumerate(recs) if all(r[v] == s for v, s in obs.items())]
    check(list(g.index) == [df.index[i] for i in e] and list(g.columns) == list(df.columns), "records kept", got=list(g.index))
    check(g.values.tolist() == df.iloc[e].values.tolist() and before.equals(df), "records kept (values)")

def _ev(rng, vs, recs, tgt):
    rest = [v for v in vs if v not in tgt]; ks = rng.sample(rest, rng.randint(0, len(rest)))
    if not ks and rng.random() < .5: return None
    r = rng.choice(recs); return {v: r[v] for v in ks}

def laplace(rng, log):
    vs, dom, recs, df = frame(rng); t = rng.sample(vs, rng.randint(1, len(vs))); ev = _ev(rng, vs, recs, t)
    log.update(dom=dom, records=recs, target=t, evidence=ev)
    pre = rng.random() < .7
    inf = LaplaceInference(df, dom) if pre else LaplaceInference(df, dom, preprocess_flag=False)
    before = df.copy()
    q = inf.query(t[0] if len(t) == 1 and rng.random() < .5 else list(t), evidence=ev) if ev is not None else inf.query(list(t))
    sel = [r for r in recs if all(r[v] == s for v, s in (ev or {}).items())]
    expect_table(q, {v: dom[v] for v in dom if v in t}, lambda a: sum(all(r[v] == a[v] for v in t) for r in sel) / len(sel), "frequency", order=False)
    check(before.equals(df), "the data changed")
    # the same object answers further queries, with the same and with other evidence
    for _ in range(3):
        if rng.random() < .5: t = rng.sample(vs, rng.randint(1, len(vs)))
        if len(t) == len(vs): continue
        r = rng.choice(recs); keys = [v for v in (ev or {}) if v not in t] if rng.random() < .5 and ev else []
        ev = {v: r[v] for v in keys or rng.sample([v for v in vs if v not in t], 1)}
        log.update(further=dict(target=t, evidence=ev)); q = inf.query(list(t), evidence=ev)
        sel = [r for r in recs if all(r[v] == s for v, s in ev.items())]
        expect_table(q, {v: dom[v] for v in dom if v in t}, lambda a: sum(all(r[v] == a[v] for v in t) for r in sel) / len(sel), "frequency of a further query", order=False)
    t2 = rng.sample(vs, 1); q2 = inf.query(t2)
    expect_table(q2, {v: dom[v] for v in t2}, lambda a: sum(r[t2[0]] == a[t2[0]] for r in recs) / len(recs), "frequency of a second query")

def condlap(rng, log):
    vs, dom, recs, df = frame(rng, n=rng.choice([2, 3, 4])); t = rng.sample(vs, rng.randint(1, len(vs) - 1)); rest = [v for v in vs if v not in t]
    c = rng.sample(rest, rng.randint(1, len(rest))); ev = _ev(rng, [v for v in rest if v not in c], recs, t) if len(rest) > len(c) else None
    log.update(dom=dom, records=recs, target=t, conditioning=c, evidence=ev)
    inf = LaplaceInference(df, dom); kw = dict(evidence=ev) if ev is not None else {}
    q = inf.query(t[0] if len(t) == 1 and rng.random() < .5 else list(t), conditioning=c[0] if len(c) == 1 and rng.random() < .5 else list(c), **kw)
    check(set(q.variables) == {*t, *c} and set(q.left_vars) == set(t) and set(q.right_vars) == set(c), "sides", left=q.left_vars, right=q.right_vars)
    sel = [r for r in recs if all(r[v] == s for v, s in (ev or {}).items())]
    for a in assignments({v: dom[v] for v in c}):
        s2 = [r for r in sel if all(r[v] == a[v] for v in c)]
        if not s2: continue
        for b in assignments({v: dom[v] for v in t}):
            e = sum(all(r[v] == b[v] for v in t) for r in s2) / len(s2); g = q.get_value(**a, **b)
            check(close(g, e), "conditional frequency", at={**a, **b}, got=g, expected=e)
    raises(lambda: inf.query(t, conditioning=[t[0]]), "target and conditioning overlap", ValueError)
    raises(lambda: inf.query(t, evidence={t[0]: dom[t[0]][0]}), "target and evidence overlap", ValueError)

FAMILIES = dict(counts=counts, missing=missing, filt=filt, laplace=laplace, condlap=condlap)
