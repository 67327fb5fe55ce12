"""C04 storage."""
from .common import *
import bcause.util.domainutils as dutil
COUNTS = dict(construct=200, write=200, rename=60, rejected=60, index=100, copies=60, whole=40)

def construct(rng, log):
    dom = domain(rng, names(rng, rng.randint(0, 4)), 4)
    raw = raw_table(rng, dom)
    form = rng.choice(["flat", "nested", "array", "flatarray", "scalar", "tuple", "ints"])
    vtype = rng.choice(STORES)
    log.update(dom=dom, form=form, vtype=vtype, values=raw.flat())
    if form == "scalar":
        s = rng.choice([0, 1.5, np.float64(2.5), 3])
        f = MultinomialFactor(dict(dom), s, vtype=vtype); raw = Raw(dom, {k: float(s) for k in raw.tab})
    elif form == "tuple":
        f = MultinomialFactor(dict(dom), tuple(raw.flat()), vtype=vtype)
    elif form == "ints":
        raw = raw_table(rng, dom, "int"); f = MultinomialFactor(dict(dom), [int(x) for x in raw.flat()], vtype=vtype)
    else: f = factor(rng, raw, vtype, form=form)
    expect_table(f, dom, raw.at, "construction")
    flat = raw.flat()
    vl = f.values_list
    check(len(vl) == len(flat) and all(close(x, y) for x, y in zip(vl, flat)), "list of values", got=vl, expected=flat)
    check(all(close(x, y) for x, y in zip(f.values, flat)), "values")
    vd = f.values_dict
    check(list(vd) == [tuple(a.items()) for a in assignments(dom)], "keys of the dictionary of values", got=list(vd))
    check(all(close(x, y) for x, y in zip(vd.values(), flat)), "dictionary of values")
    order = shuffled(rng, list(dom))
    arr = f.values_array(order) if order else f.values_array()
    check(list(np.shape(arr)) == [len(dom[v]) for v in order], "shape of the array of values", got=np.shape(arr))
    check(all(close(x, raw.at(a)) for x, a in zip(np.ravel(arr), assignments({v: dom[v] for v in order}))), "array of values in another order", order=order, got=arr)
    check(all(close(x, y) for x, y in zip(np.ravel(f.values_array()), flat)), "array of values")
    check(close(f.store.sum_all(), math.fsum(flat), 1e-8), "total")
    check(bool(f.store.all_equal()) == (len(set(flat)) == 1), "all_equal")
    check(f.is_degenerate() == all(x in (0, 1) for x in flat), "is_degenerate")
    check(f.store.cardinality == [len(d) for d in dom.values()] and f.store.cardinality_dict == {v: len(d) for v, d in dom.items()}, "cardinalities")
    obs = [ {v: rng.choice(d) for v, d in dom.items()} for _ in range(3)]
    check(all(close(x, raw.at(o)) for x, o in zip(f.prob(obs), obs)), "prob")

def write(rng, log):
    dom = domain(rng, names(rng, rng.randint(1, 4)), 3)
    raw = raw_table(rng, dom); vtype = rng.choice(STORES)
    f = factor(rng, raw, vtype)
    tab = dict(raw.tab); hist = []
    log.update(dom=dom, vtype=vtype, values=raw.flat(), history=hist)
    snaps = []
    for _ in range(rng.randint(1, 5)):
        a = {v: rng.choice(d) for v, d in dom.items()}
        o = dict(shuffled(rng, list(a.items())))
        x = float(rng.randint(10, 99))
        hist.append((o, x))
        if rng.random() < .3: snaps.append((f.store.copy(), dict(tab)))
        f.store.set_value(x, o)
        tab[key(dom, a)] = x
        expect_table(f, dom, lambda b: tab[key(dom, b)], "after writing")
    for st, t in snaps:
        for b in assignments(dom): check(close(st.get_value(**b), t[key(dom, b)]), "a copy changed with later writes", at=b)

def rename(rng, log):
    dom = domain(rng, names(rng, rng.randint(1, 4)), 3)
    f, raw = rnd_factor(rng, dom=dom)
    mp = {v: f"{v}_r" for v in rng.sample(list(dom), rng.randint(0, len(dom)))}
    if rng.random() < .3: mp["NotThere"] = "x"
    if len(dom) > 1 and rng.random() < .2:
        a, b = rng.sample(list(dom), 2); mp = {a: b, b: a}
    log.update(dom=dom, mapping=mp, vtype=f.vtype, values=raw.flat())
    r = f.rename_vars(mp)
    nd = {mp.get(v, v): d for v, d in dom.items()}
    inv = {mp.get(v, v): v for v in dom}
    expect_table(r, nd, lambda a: raw.at({inv[k]: x for k, x in a.items()}), "renaming")
    check(list(r.left_vars) == [mp.get(v, v) for v in f.left_vars] and set(r.right_vars) == {mp.get(v, v) for v in f.right_vars}, "sides after renaming")

def rejected(rng, log):
    dom = domain(rng, names(rng, rng.randint(1, 3)), 3, mincard=2)
    vtype = rng.choice([s for s in STORES if s != "treedict"])
    n = int(np.prod([len(d) for d in dom.values()]))
    k = n + rng.choice([-1, 1, 2, n])
    log.update(dom=dom, vtype=vtype, n_values=k)
    if k > 0 and k != n:
        raises(lambda: MultinomialFactor(dict(dom), [0.5] * k, vtype=vtype), "values that do not fit the domain were accepted")
        raises(lambda: store_dict[vtype](data=[0.5] * k, domain=dict(dom)), "values that do not fit the domain were accepted by the storage")
    if len(dom) > 1 and vtype == "numpy":
        sh = [len(d) for d in dom.values()]
        if sh != sh[::-1]: raises(lambda: store_dict[vtype](data=np.zeros(sh[::-1]), domain=dict(dom)), "an array of another shape was accepted")
    raises(lambda: MultinomialFactor({"_x": [0, 1]}, [1, 2], vtype=vtype), "a variable name with an underscore was accepted")
    raises(lambda: MultinomialFactor({"x": (0, 1)}, [1, 2], vtype=vtype), "a domain that is no list was accepted")
    raises(lambda: MultinomialFactor({"x": [0, "1"]}, [1, 2], vtype=vtype), "a domain with mixed types was accepted")

def index(rng, log):
    dom = domain(rng, names(rng, rng.randint(0, 4)), 4)
    log.update(dom=dom)
    asg = list(assignments(dom))
    check(dutil.assingment_space(dom) == asg, "enumeration of the assignments")
    check([tuple(a.values()) for a in asg] == list(map(tuple, dutil.state_space(dom))), "enumeration of the states")
    pos = {key(dom, a): i for i, a in enumerate(asg)}
    S = dutil.steps(dom)
    for a in asg:
        check(sum(s * dom[v].index(a[v]) for s, v in zip(S, dom)) == pos[key(dom, a)], "steps", at=a)
        check(dutil.index_list(dom, a) == [pos[key(dom, a)]], "index of an assignment", at=a, got=dutil.index_list(dom, a))
    obs = {v: rng.choice(dom[v]) for v in rng.sample(list(dom), rng.randint(0, len(dom)))}
    obs2 = dict(shuffled(rng, list({**obs, "Q8": 1}.items())))
    exp = [i for i, a in enumerate(asg) if all(a[v] == x for v, x in obs.items())]
    check(list(dutil.index_iterator(dom, obs2)) == exp, "indices compatible with an observation", obs=obs2, got=list(dutil.index_iterator(dom, obs2)))
    check(dutil.steps_dict(dom) == dict(zip(dom, S)), "steps_dict")
    check(dutil.values_to_coord(dom, obs2) == {v: dom[v].index(x) for v, x in obs.items()}, "coordinates of the states")
    check(dutil.to_numeric_domains(dom) == {v: list(range(len(d))) for v, d in dom.items()}, "numeric domains")
    sub = rng.sample(list(dom), rng.randint(0, len(dom)))
    check(list(dutil.subdomain(dom, *sub).items()) == [(v, dom[v]) for v in sub], "subdomain")
    it = rng.sample(list(dom), rng.randint(0, len(dom)))
    ra = dutil.random_assignment(dom, it)
    check([tuple(a[v] for v in it) for a in ra] == [tuple(a.values()) for a in assignments({v: dom[v] for v in it})], "random assignment over configurations", got=ra)
    check(all(list(a) == list(dom) and all(a[v] in dom[v] for v in dom) for a in ra), "random assignment")
    check(all(x in dom[v] for v, x in dutil.random_assignment(dom).items()), "random assignment states")

def copies(rng, log):
    f, raw = rnd_factor(rng, n=rng.randint(0, 3))
    log.update(vtype=f.vtype, dom=raw.dom, values=raw.flat())
    c = f.store.copy()
    for a in assignments(raw.dom): check(close(c.get_value(**a), raw.at(a)), "copy", at=a)
    check(list(c.domain.items()) == list(f.store.domain.items()), "domain of the copy")
    if raw.dom:
        a = {v: rng.choice(d) for v, d in raw.dom.items()}
        c.set_value(77.0, a)
        check(close(c.get_value(**a), 77.0), "writing into a copy")
        expect_table(f, raw.dom, raw.at, "original after writing into a copy")

def whole(rng, log):
    """empty storage has zeros; partial tree data"""
    dom = domain(rng, names(rng, rng.randint(1, 3)), 3)
    vtype = rng.choice(STORES)
    log.update(dom=dom, vtype=vtype)
    s = store_dict[vtype](domain=dict(dom))
    for a in assignments(dom): check(close(s.get_value(**a), 0.0), "default values", at=a)
    v = list(dom)[0]
    d2 = dict(dom)
    leaf = {x: float(i + 1) for i, x in enumerate(dom[v])}
    f = MultinomialFactor(d2, dict(var=v, children=dict(leaf)), vtype="treedict")
    expect_table(f, dom, lambda a: leaf[a[v]], "pruned tree")
    rem = rng.sample(list(dom), rng.randint(1, len(dom)))
    keep = {w: d for w, d in dom.items() if w not in rem}; remd = {w: d for w, d in dom.items() if w in rem}
    expect_table(f.marginalize(*rem), keep, lambda a: sum(leaf[{**a, **b}[v]] for b in assignments(remd)), "sum of a pruned tree")
    expect_table(f.maxmarginalize(*rem), keep, lambda a: max(leaf[{**a, **b}[v]] for b in assignments(remd)), "maximum of a pruned tree")

FAMILIES = dict(construct=construct, write=write, rename=rename, rejected=rejected, index=index, copies=copies, whole=whole)

def prunedwrite(rng, log):
    """writing into a tree that has leaves above some variables"""
    dom = domain(rng, names(rng, rng.randint(1, 3)), 3)
    vs = shuffled(rng, list(dom))
    def tree(k):
        if k == len(vs) or rng.random() < .35: return float(rng.randint(0, 9))
        return dict(var=vs[k], children={s: tree(k + 1) for s in dom[vs[k]]})
    t = tree(0)
    def val(t, a): return t if not isinstance(t, dict) else val(t["children"][a[t["var"]]], a)
    tab = {key(dom, a): val(t, a) for a in assignments(dom)}
    s = store_dict["treedict"](domain=dict(dom), data=t)
    hist = []
    log.update(dom=dom, tree=t, history=hist)
    for _ in range(rng.randint(0, 3)):
        a = {v: rng.choice(d) for v, d in dom.items()}
        x = float(rng.randint(10, 99)); hist.append((a, x))
        s.set_value(x, dict(shuffled(rng, list(a.items())))); tab[key(dom, a)] = x
        for b in assignments(dom): check(close(s.get_value(**b), tab[key(dom, b)]), "after writing into a tree", at=b, got=s.get_value(**b), expected=tab[key(dom, b)])
    f = MultinomialFactor(dict(dom), s.data, vtype="treedict")
    expect_table(f, dom, lambda a: tab[key(dom, a)], "factor of a tree")
    rem = rng.sample(list(dom), rng.randint(1, len(dom)))
    keep = {w: d for w, d in dom.items() if w not in rem}; remd = {w: d for w, d in dom.items() if w in rem}
    expect_table(f.marginalize(*rem), keep, lambda a: sum(tab[key(dom, {**a, **b})] for b in assignments(remd)), "sum of a tree")
    expect_table(f.maxmarginalize(*rem), keep, lambda a: max(tab[key(dom, {**a, **b})] for b in assignments(remd)), "maximum of a tree")

FAMILIES["prunedwrite"] = prunedwrite
COUNTS["prunedwrite"] = 100
