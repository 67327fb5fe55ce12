"""C03 restriction."""
from .common import *
COUNTS = dict(single=330, several=160, rejected=80, nothing=30, after_ops=50)

def single(rng, log):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    f, raw = rnd_factor(rng, n=n)
    vs = rng.sample(list(raw.dom), rng.randint(1, n))
    obs = {v: rng.choice(raw.dom[v]) for v in vs}
    extra = {}
    if rng.random() < .35:
        for w in ["Q", "V1000", "zz"]:
            if w not in raw.dom: extra[w] = rng.choice([0, "a"])
    items = shuffled(rng, list({**obs, **extra}.items()))
    o = dict(items)
    if f.vtype == "numpy" and rng.random() < .3: o = {k: ([x] if rng.random() < .5 else x) for k, x in o.items()}
    log.update(vtype=f.vtype, dom=raw.dom, values=raw.flat(), obs=o)
    keep = {v: d for v, d in raw.dom.items() if v not in obs}
    r = f.restrict(**o) if rng.random() < .5 else f.R(**o)
    expect_table(r, keep, lambda a: raw.at({**a, **obs}), "restriction")
    # the same in two steps
    if len(vs) > 1:
        k = rng.randint(1, len(vs) - 1)
        g = f.R(**{v: obs[v] for v in vs[:k]}).R(**{v: obs[v] for v in vs[k:]})
        expect_table(g, keep, lambda a: raw.at({**a, **obs}), "restriction in two steps")
    # reading a value is a full restriction
    a = {v: rng.choice(d) for v, d in raw.dom.items()}
    check(close(f.get_value(**dict(shuffled(rng, list(a.items())))), raw.at(a)), "wrong value read", at=a)

def several(rng, log):
    n = rng.choice([1, 2, 3, 3, 4])
    vs = names(rng, n); dom = domain(rng, vs, 4, mincard=1)
    f, raw = rnd_factor(rng, dom=dom, vtype="numpy")
    obs, newd, fixed = {}, {}, {}
    for v in vs:
        m = rng.random()
        if m < .55:
            k = rng.randint(1, len(dom[v])); obs[v] = rng.sample(dom[v], k)
            if k == 1: fixed[v] = obs[v][0]
            else: newd[v] = [x for x in dom[v] if x in obs[v]]
        elif m < .75:
            obs[v] = fixed[v] = rng.choice(dom[v])
        else: newd[v] = dom[v]
    if not obs: return
    newd = {v: newd[v] for v in vs if v in newd}
    log.update(dom=dom, values=raw.flat(), obs=obs)
    r = f.restrict(**dict(shuffled(rng, list(obs.items()))))
    expect_table(r, newd, lambda a: raw.at({**a, **fixed}), "restriction to several states")
    arr = r.values_array()
    check(list(np.shape(arr)) == [len(d) for d in newd.values()], "shape of the restricted values", got=np.shape(arr))
    if newd:
        check(all(close(x, raw.at({**a, **fixed})) for x, a in zip(np.ravel(arr), assignments(newd))), "array of the restricted values", got=arr)

def rejected(rng, log):
    f, raw = rnd_factor(rng, n=rng.randint(1, 3))
    v = rng.choice(list(raw.dom))
    d = raw.dom[v]
    bad = "no_such_state" if isinstance(d[0], str) else 99
    obs = {v: bad}
    for w in raw.dom:
        if w != v and rng.random() < .4: obs[w] = rng.choice(raw.dom[w])
    if f.vtype == "numpy" and rng.random() < .4 and len(d) > 1: obs[v] = rng.sample([bad, d[0], d[1]], 3)
    log.update(vtype=f.vtype, dom=raw.dom, obs=obs)
    raises(lambda: f.restrict(**obs), "a state outside the domain was accepted", exc=(IndexError, KeyError, ValueError))

def nothing(rng, log):
    f, raw = rnd_factor(rng, n=rng.randint(1, 3))
    log.update(vtype=f.vtype, dom=raw.dom)
    expect_table(f.restrict(), raw.dom, raw.at, "empty restriction")
    expect_table(f.restrict(Q9=0), raw.dom, raw.at, "irrelevant restriction")

def after_ops(rng, log):
    vtype = rng.choice(STORES)
    pool = names(rng, 4); dom = domain(rng, pool, 3)
    f1, r1 = rnd_factor(rng, dom={v: dom[v] for v in rng.sample(pool, rng.randint(1, 3))}, vtype=vtype)
    f2, r2 = rnd_factor(rng, dom={v: dom[v] for v in rng.sample(pool, rng.randint(1, 3))}, vtype=vtype)
    d = {**r1.dom, **{v: x for v, x in r2.dom.items() if v not in r1.dom}}
    vs = rng.sample(list(d), rng.randint(1, len(d))); obs = {v: rng.choice(d[v]) for v in vs}
    log.update(vtype=vtype, left=(r1.dom, r1.flat()), right=(r2.dom, r2.flat()), obs=obs)
    keep = {v: x for v, x in d.items() if v not in obs}
    expect_table((f1 * f2).R(**obs), keep, lambda a: r1.at({**a, **obs}) * r2.at({**a, **obs}), "restriction of a product")

FAMILIES = dict(single=single, several=several, rejected=rejected, nothing=nothing, after_ops=after_ops)
