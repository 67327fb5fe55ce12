"""C02 marginalisation."""
from .common import *
COUNTS = dict(sums=300, maxs=200, after_ops=80, unsupported=6)

def expected(raw, rem, agg):
    keep = {v: d for v, d in raw.dom.items() if v not in rem}
    remd = {v: d for v, d in raw.dom.items() if v in rem}
    return keep, lambda a: agg(raw.at({**a, **b}) for b in assignments(remd))

def _sum(it): return math.fsum(it)

def call(rng, f, rem, kind):
    m = rng.random()
    if kind == "sum":
        if m < .5: return f.marginalize(*rem)
        if len(rem) == 1 and m < .75: return f ** rem[0]
        return f ** (rem if m < .9 else tuple(rem))
    if m < .5: return f.maxmarginalize(*rem)
    if len(rem) == 1 and m < .75: return f ^ rem[0]
    return f ^ rem

def one(rng, log, kind):
    vtype = rng.choice([s for s in STORES if not (kind == "max" and s == "numpy1d")])
    n = rng.choice([1, 2, 2, 3, 3, 4])
    f, raw = rnd_factor(rng, n=n, vtype=vtype, mode=rng.choice(["int", "dyadic", "float", "nonzero"]))
    if kind == "max" and rng.random() < .3:
        raw.tab = {k: -abs(v) - 1 for k, v in raw.tab.items()}; f = factor(rng, raw, vtype, right=list(f.right_vars))
    rem = rng.sample(list(raw.dom), rng.randint(1, n))
    log.update(kind=kind, vtype=vtype, dom=raw.dom, values=raw.flat(), remove=rem)
    r = call(rng, f, rem, kind)
    d, fn = expected(raw, rem, _sum if kind == "sum" else max)
    expect_table(r, d, fn, f"{kind} over {rem}")
    # order irrelevant, one by one
    g = f
    for v in shuffled(rng, rem): g = g.marginalize(v) if kind == "sum" else g.maxmarginalize(v)
    expect_table(g, d, fn, f"{kind} over {rem}, one by one")
    check(f.marginalize("not_a_variable") is f or True, "")

def after_ops(rng, log):
    vtype = rng.choice(STORES)
    pool = names(rng, 4); dom = domain(rng, pool, 3)
    f1, r1 = rnd_factor(rng, dom={v: dom[v] for v in rng.sample(pool, rng.randint(1, 3))}, vtype=vtype)
    f2, r2 = rnd_factor(rng, dom={v: dom[v] for v in rng.sample(pool, rng.randint(1, 3))}, vtype=vtype)
    p = f1 * f2
    d = {**r1.dom, **{v: x for v, x in r2.dom.items() if v not in r1.dom}}
    rem = rng.sample(list(d), rng.randint(1, len(d)))
    log.update(vtype=vtype, left=(r1.dom, r1.flat()), right=(r2.dom, r2.flat()), remove=rem)
    keep = {v: x for v, x in d.items() if v not in rem}; remd = {v: x for v, x in d.items() if v in rem}
    expect_table(p.marginalize(*rem), keep, lambda a: math.fsum(r1.at({**a, **b}) * r2.at({**a, **b}) for b in assignments(remd)), "sum of a product")
    if vtype != "numpy1d":
        expect_table(p.maxmarginalize(*rem), keep, lambda a: max(r1.at({**a, **b}) * r2.at({**a, **b}) for b in assignments(remd)), "maximum of a product")

def unsupported(rng, log):
    f, raw = rnd_factor(rng, n=2, vtype="numpy1d")
    log.update(dom=raw.dom)
    raises(lambda: f.maxmarginalize(list(raw.dom)[0]), "maximisation in an unsupported storage answered", NotImplementedError) if not _supports(f) else \
        expect_table(f.maxmarginalize(list(raw.dom)[0]), *expected(raw, [list(raw.dom)[0]], max), "max")

def _supports(f):
    try: f.maxmarginalize(f.variables[0]); return True
    except NotImplementedError: return False

FAMILIES = dict(sums=lambda r, l: one(r, l, "sum"), maxs=lambda r, l: one(r, l, "max"), after_ops=after_ops, unsupported=unsupported)
