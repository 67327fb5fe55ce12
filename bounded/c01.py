"""C01 pointwise factor arithmetic."""
import operator
from .common import *
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}
METH = {"+": "addition", "-": "subtract", "*": "multiply", "/": "divide"}
COUNTS = dict(pairs=330, scalars=120, chains=60, mixed=30, same=40, combine_all=30)

def union(d1, d2):
    out = dict(d1)
    for v, d in d2.items():
        if v not in out: out[v] = d
    return out

def rnd_pair(rng, log, op, maxvars=5):
    vtype = rng.choice(STORES)
    n1, n2 = rng.randint(0, 3), rng.randint(0, 3)
    pool = names(rng, rng.randint(max(n1, n2, 1), min(maxvars, max(1, n1 + n2))))
    dom = domain(rng, pool, 4 if len(pool) <= 3 else 3)
    v1, v2 = rng.sample(pool, n1), rng.sample(pool, n2)
    m = rng.random()
    if m < .12: v2 = shuffled(rng, v1)
    elif m < .2 and v1: v2 = rng.sample(v1, rng.randint(0, len(v1)))
    elif m < .28 and v2: v1 = rng.sample(v2, rng.randint(0, len(v2)))
    mode2 = "nonzero" if op == "/" else None
    f1, r1 = rnd_factor(rng, dom={v: dom[v] for v in v1}, vtype=vtype)
    f2, r2 = rnd_factor(rng, dom={v: dom[v] for v in v2}, vtype=vtype, mode=mode2)
    return vtype, f1, r1, f2, r2

def pairs(rng, log):
    op = rng.choice(list(OPS))
    vtype, f1, r1, f2, r2 = rnd_pair(rng, log, op)
    log.update(op=op, vtype=vtype, left=(r1.dom, r1.flat(), f1.right_vars), right=(r2.dom, r2.flat(), f2.right_vars))
    r = OPS[op](f1, f2) if rng.random() < .6 else getattr(f1, METH[op])(f2)
    expect_table(r, union(r1.dom, r2.dom), lambda a: OPS[op](r1.at(a), r2.at(a)), f"{op} of two factors")
    check(r.vtype == vtype, "the result uses another storage", got=r.vtype, expected=vtype)

def same(rng, log):
    op = rng.choice(list(OPS))
    f, r1 = rnd_factor(rng, n=rng.randint(0, 3), mode="nonzero")
    log.update(op=op, vtype=f.vtype, both=(r1.dom, r1.flat()))
    r = OPS[op](f, f)
    expect_table(r, r1.dom, lambda a: OPS[op](r1.at(a), r1.at(a)), f"{op} of a factor with itself")

def scalars(rng, log):
    op = rng.choice(list(OPS))
    vtype = rng.choice(STORES)
    s = rng.choice([0, 1, 2, -3, 0.5, 2.0, np.float64(1.5), np.int64(3), np.float32(.25), True, 7])
    left = rng.random() < .5
    mode = "nonzero" if (op == "/" and left) else None
    if op == "/" and not left and s == 0: s = 4
    f, r1 = rnd_factor(rng, n=rng.randint(0, 3), vtype=vtype, mode=mode)
    log.update(op=op, scalar=repr(s), scalar_left=left, vtype=vtype, factor=(r1.dom, r1.flat()))
    sc = float(s)
    r = OPS[op](s, f) if left else (OPS[op](f, s) if rng.random() < .5 else getattr(f, METH[op])(s))
    expect_table(r, r1.dom, (lambda a: OPS[op](sc, r1.at(a))) if left else (lambda a: OPS[op](r1.at(a), sc)), f"{op} with a scalar", order=True)
    check(set(r.left_vars) == set(f.left_vars) if not (op == "/" and left) else True, "a scalar changed the left variables", got=r.left_vars, expected=f.left_vars)

def chains(rng, log):
    vtype = rng.choice(STORES)
    pool = names(rng, 4); dom = domain(rng, pool, 3)
    fs = []
    for _ in range(rng.randint(3, 5)):
        vs = rng.sample(pool, rng.randint(0, 3))
        fs.append(rnd_factor(rng, dom={v: dom[v] for v in vs}, vtype=vtype, mode="nonzero"))
    ops = [rng.choice(list(OPS)) for _ in fs[1:]]
    log.update(vtype=vtype, ops=ops, operands=[(r.dom, r.flat()) for _, r in fs])
    f, d = fs[0][0], dict(fs[0][1].dom)
    for (g, r), op in zip(fs[1:], ops):
        # quotients only by original factors, which are non-zero
        f = OPS[op](f, g); d = union(d, r.dom)
    def ev(a):
        x = fs[0][1].at(a)
        for (_, r), op in zip(fs[1:], ops): x = OPS[op](x, r.at(a))
        return x
    expect_table(f, d, ev, "chain of operations", tol=1e-8)

def mixed(rng, log):
    t1, t2 = rng.sample(STORES, 2)
    f1, r1 = rnd_factor(rng, n=rng.randint(1, 2), vtype=t1)
    f2, r2 = rnd_factor(rng, n=rng.randint(1, 2), vtype=t2)
    op = rng.choice(list(OPS))
    log.update(vtypes=(t1, t2), op=op, doms=(r1.dom, r2.dom))
    if any(r1.dom[v] != r2.dom[v] for v in set(r1.dom) & set(r2.dom)): return
    raises(lambda: OPS[op](f1, f2), "operands in different kinds of storage were combined", ValueError)

def combine_all(rng, log):
    from bcause.factors.factor import Factor
    vtype = rng.choice(STORES)
    pool = names(rng, 3); dom = domain(rng, pool, 3)
    fs = [rnd_factor(rng, dom={v: dom[v] for v in rng.sample(pool, rng.randint(0, 3))}, vtype=vtype) for _ in range(rng.randint(1, 4))]
    log.update(vtype=vtype, operands=[(r.dom, r.flat()) for _, r in fs])
    d = {}
    for _, r in fs: d = union(d, r.dom)
    res = Factor.combine_all(*[f for f, _ in fs])
    def ev(a):
        x = 1.0
        for _, r in fs: x *= r.at(a)
        return x
    expect_table(res, d, ev, "product of several factors")

FAMILIES = dict(pairs=pairs, same=same, scalars=scalars, chains=chains, mixed=mixed, combine_all=combine_all)
