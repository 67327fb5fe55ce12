"""C15 deterministic functions and tables."""
from .common import *
from bcause.factors.deterministic import canonical_deterministic
from bcause.factors.mulitnomial import canonical_multinomial, random_deterministic, random_multinomial, uniform_multinomial
COUNTS = dict(tomulti=170, todet=120, canonical=90, frame=60, constant=80, generators=70)

def rnd_fun(rng, maxpar=3, vtype=None):
    vs = names(rng, rng.randint(1, maxpar + 1)); x = vs[0]
    d = domain(rng, vs, 3)
    order = shuffled(rng, vs) if rng.random() < .7 else vs
    dom = {v: d[v] for v in order}
    right = {v: dom[v] for v in dom if v != x}
    fn = {key(right, a): rng.choice(dom[x]) for a in assignments(right)}
    vtype = vtype or rng.choice(STORES)
    vals = [fn[key(right, a)] for a in assignments(right)]
    kw = dict(left_vars=[x]) if rng.random() < .4 else (dict(right_vars=list(right)) if rng.random() < .5 else dict(left_vars=x))
    f = DeterministicFactor(dict(dom), vals, vtype=vtype, **kw)
    return f, x, dom, right, fn

def tomulti(rng, log):
    f, x, dom, right, fn = rnd_fun(rng)
    log.update(dom=dom, left=x, vtype=f.vtype, fn=fn)
    check(list(f.left_vars) == [x] and set(f.right_vars) == set(right), "sides", left=f.left_vars)
    check(list(f.domain.items()) == list(dom.items()), "domain", got=f.domain)
    for a in assignments(dom):
        e = fn[key(right, a)] == a[x]
        check(bool(f.eval(**dict(shuffled(rng, list(a.items()))))) == e, "evaluation", at=a)
    for a in assignments(right): check(f.get_value(**a) == fn[key(right, a)], "value of the function", at=a, got=f.get_value(**a))
    as_int = rng.random() < .3
    m = f.to_multinomial(as_int=True) if as_int else f.to_multinomial()
    expect_table(m, dom, lambda a: 1.0 if fn[key(right, a)] == a[x] else 0.0, "table of a function")
    check(list(m.left_vars) == [x] and set(m.right_vars) == set(right) and m.vtype == f.vtype, "sides of the table")
    check(m.is_degenerate(), "the table is not degenerate")
    if right:
        o = shuffled(rng, list(right)); arr = f.values_array(o)
        check(list(arr.shape) == [len(right[v]) for v in o] and all(g == fn[key(right, a)] for g, a in zip(arr.ravel(), assignments({v: right[v] for v in o}))), "array of a function", order=o)
    b = m.to_deterministic()
    for a in assignments(right): check(int(b.get_value(**a)) == dom[x].index(fn[key(right, a)]), "back to a function", at=a, got=b.get_value(**a))

def todet(rng, log):
    vs = names(rng, rng.randint(1, 4)); x = rng.choice(vs); dom = domain(rng, vs, 3)
    right = {v: dom[v] for v in dom if v != x}
    fn = {key(right, a): rng.randrange(len(dom[x])) for a in assignments(right)}
    vtype = rng.choice(STORES)
    f = MultinomialFactor(dict(dom), [1.0 if fn[key(right, a)] == dom[x].index(a[x]) else 0.0 for a in assignments(dom)], left_vars=[x], vtype=vtype)
    log.update(dom=dom, left=x, fn=fn, vtype=vtype)
    d = f.to_deterministic()
    check(list(d.left_vars) == [x] and set(d.right_vars) == set(right), "sides")
    for a in assignments(right): check(int(d.get_value(**a)) == fn[key(right, a)], "function of a table", at=a, got=d.get_value(**a), expected=fn[key(right, a)])
    if len(vs) > 1:
        g = MultinomialFactor(dict(dom), [0.5] * int(np.prod([len(s) for s in dom.values()])))
        raises(lambda: g.to_deterministic(), "a table with several left variables became a function", ValueError)

def canonical(rng, log):
    k = rng.choice([0, 1, 1, 2])
    endo = rng.sample(["A", "B", "C"], k); x = "X"
    pd_ = {v: states(rng, v, rng.choice([2, 2, 3]) if k < 2 else 2) for v in endo}
    if k == 2 and rng.random() < .4: pd_[endo[rng.randrange(2)]] = states(rng, "T", 3)
    m = int(np.prod([len(d) for d in pd_.values()])) if endo else 1
    xd = states(rng, x, 2 if m > 3 else rng.choice([2, 3]))
    dom = {x: xd, "U": list(range(len(xd) ** m)), **pd_}
    dom = {v: dom[v] for v in shuffled(rng, list(dom))}
    log.update(dom=dom, parents=endo)
    f = canonical_deterministic(dom, "U", endo)
    check(list(f.left_vars) == [x] and set(f.right_vars) == {"U", *endo}, "sides", left=f.left_vars, right=f.right_vars)
    funs = [tuple(f.get_value(U=u, **a) for a in assignments(pd_)) for u in dom["U"]]
    check(len(set(funs)) == len(funs) == len(xd) ** m and all(s in xd for t in funs for s in t), "canonical equations do not enumerate every function once", got=funs)
    g = canonical_multinomial(dom, "U", endo)
    expect_table(g, dict(f.domain), lambda a: 1.0 if f.get_value(U=a["U"], **{v: a[v] for v in endo}) == a[x] else 0.0, "canonical table")
    raises(lambda: canonical_deterministic({**dom, "Q": [0, 1]}, "U", endo), "two left variables were accepted", ValueError)

def frame(rng, log):
    vs = names(rng, rng.randint(2, 4)); dom = domain(rng, vs, 3, kinds=["str", "range", "ints"])
    cols = shuffled(rng, vs); last = rng.random() < .5; x = cols[-1] if last else rng.choice(cols)
    right = {v: dom[v] for v in cols if v != x}
    fn = {key(right, a): rng.choice(dom[x]) for a in assignments(right)}
    rows = shuffled(rng, [{**a, x: fn[key(right, a)]} for a in assignments(right)])
    df = pd.DataFrame(rows, columns=cols)
    log.update(dom=dom, columns=cols, rows=rows)
    if rng.random() < .3: df = df.set_index(pd.Index(shuffled(rng, range(10, 10 + len(df)))))
    before = df.copy()
    f = DeterministicFactor.from_data_frame(df, dom) if last and rng.random() < .5 else DeterministicFactor.from_data_frame(df, dom, x)
    check(before.equals(df) and list(before.dtypes) == list(df.dtypes), "the data frame changed")
    check(list(f.left_vars) == [x], "left variable", got=f.left_vars)
    for a in assignments(right): check(f.get_value(**a) == fn[key(right, a)], "function from a data frame", at=a, got=f.get_value(**a), expected=fn[key(right, a)])

def constant(rng, log):
    f, x, dom, right, fn = rnd_fun(rng)
    s = rng.choice(dom[x])
    log.update(dom=dom, left=x, state=s, vtype=f.vtype)
    m = f.to_multinomial().constant(s)
    expect_table(m, {x: dom[x]}, lambda a: 1.0 if a[x] == s else 0.0, "constant table")
    check(list(m.left_vars) == [x] and list(m.right_vars) == [], "sides of a constant")
    c = f.constant(s)
    check(list(c.left_vars) == [x] and list(c.right_vars) == [], "sides of a constant function")
    expect_table(c.to_multinomial(), {x: dom[x]}, lambda a: 1.0 if a[x] == s else 0.0, "constant function")
    raises(lambda: f.constant("no_such"), "a constant outside the domain was accepted", ValueError)

def generators(rng, log):
    vs = names(rng, rng.randint(1, 4)); dom = domain(rng, vs, 3)
    right = rng.sample(vs, rng.randint(0, len(vs) - 1)); left = [v for v in vs if v not in right]
    vtype = rng.choice(STORES)
    log.update(dom=dom, right=right, vtype=vtype)
    def sums(f, what):
        check(set(f.left_vars) == set(left) and set(f.right_vars) == set(right) and f.vtype == vtype, f"{what}: sides", left=f.left_vars)
        for a in assignments({v: dom[v] for v in right}):
            s = [num(f.get_value(**a, **b)) for b in assignments({v: dom[v] for v in left})]
            check(close(sum(s), 1.0) and min(s) >= 0, f"{what}: not normalised", at=a, got=s)
    sums(random_multinomial(dict(dom), right, vtype=vtype), "random table")
    g = random_multinomial(dict(dom), right, vtype=vtype, allow_zero=False); sums(g, "random table without zeros"); check(all(num(x) > 0 for x in g.values), "zeros")
    u = uniform_multinomial(dict(dom), right, vtype=vtype); sums(u, "uniform table")
    n = int(np.prod([len(dom[v]) for v in left])); check(all(close(x, 1.0 / n) for x in u.values), "uniform table", got=u.values)
    r = random_deterministic(dict(dom), right, vtype=vtype); sums(r, "random function"); check(r.is_degenerate(), "a random function is not degenerate")

FAMILIES = dict(tomulti=tomulti, todet=todet, canonical=canonical, frame=frame, constant=constant, generators=generators)
