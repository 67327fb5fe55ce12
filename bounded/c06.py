"""C06 left/right bookkeeping."""
import operator
from .common import *
COUNTS = dict(construct=200, binary=250, unary=200, rejected=80)

def part(f, what):
    L, R = list(f.left_vars), list(f.right_vars)
    check(set(L) | set(R) == set(f.variables) and not set(L) & set(R), f"{what}: sides do not partition the variables", left=L, right=R, variables=f.variables)
    check(len(L) == len(set(L)) and len(R) == len(set(R)), f"{what}: repeated variables", left=L, right=R)
    check(list(f.left_domain) == [v for v in f.domain if v in L] and list(f.right_domain) == [v for v in f.domain if v in R], f"{what}: domains of the sides", left=f.left_domain, right=f.right_domain)
    check(all(f.left_domain[v] == f.domain[v] for v in f.left_domain) and all(f.right_domain[v] == f.domain[v] for v in f.right_domain), f"{what}: states of the sides")
    check(list(f.variables) == list(f.domain), f"{what}: variables and domain differ")

def rnd_side(rng, dom):
    vs = list(dom)
    right = rng.sample(vs, rng.randint(0, len(vs)))
    return [v for v in vs if v not in right], right

def construct(rng, log):
    dom = domain(rng, names(rng, rng.randint(1, 4)), 3)
    raw = raw_table(rng, dom); vtype = rng.choice(STORES)
    L, R = rnd_side(rng, dom)
    form = rng.choice(["none", "left", "right", "both", "name_left", "name_right"])
    kw = {}
    if form == "none": L, R = list(dom), []
    elif form == "left": kw["left_vars"] = shuffled(rng, L)
    elif form == "right": kw["right_vars"] = shuffled(rng, R)
    elif form == "both": kw = dict(left_vars=shuffled(rng, L), right_vars=shuffled(rng, R))
    elif form == "name_left":
        L = [rng.choice(list(dom))]; R = [v for v in dom if v not in L]; kw["left_vars"] = L[0]
    else:
        R = [rng.choice(list(dom))]; L = [v for v in dom if v not in R]; kw["right_vars"] = R[0]
    log.update(dom=dom, vtype=vtype, kw=kw)
    f = MultinomialFactor(dict(dom), raw.flat(), vtype=vtype, **kw)
    part(f, "construction")
    check(set(f.left_vars) == set(L) and set(f.right_vars) == set(R), "construction: wrong sides", left=f.left_vars, right=f.right_vars, kw=kw)
    exp = "P(" + ",".join(f.left_vars) + ("|" + ",".join(f.right_vars) if R else "") + ")"
    check(f.name == exp, "name", got=f.name, expected=exp)

def two(rng, op):
    vtype = rng.choice(STORES)
    pool = names(rng, rng.randint(1, 4)); dom = domain(rng, pool, 3)
    fs = []
    for _ in range(2):
        vs = rng.sample(pool, rng.randint(0, len(pool)))
        f, r = rnd_factor(rng, dom={v: dom[v] for v in vs}, vtype=vtype, mode="nonzero"); fs.append(f)
    return fs

def binary(rng, log):
    op = rng.choice(["+", "-", "*", "/"])
    f, g = two(rng, op)
    log.update(op=op, vtype=f.vtype, f=(f.left_vars, f.right_vars), g=(g.left_vars, g.right_vars), dom={**f.domain, **g.domain})
    r = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[op](f, g)
    part(r, op)
    allv = set(f.variables) | set(g.variables)
    check(set(r.variables) == allv, "variables", got=r.variables)
    right = {v for v in allv if v not in f.left_vars and v not in g.left_vars} if op != "/" else set(f.right_vars) | set(g.variables)
    check(set(r.right_vars) == right, f"{op}: wrong right variables", got=r.right_vars, expected=right)

def unary(rng, log):
    f, raw = rnd_factor(rng, n=rng.randint(1, 4))
    vs = rng.sample(list(raw.dom), rng.randint(1, len(raw.dom)))
    kind = rng.choice(["restrict", "sum", "max", "rename", "multi"])
    if kind == "max" and f.vtype == "numpy1d": kind = "sum"
    log.update(kind=kind, vtype=f.vtype, left=f.left_vars, right=f.right_vars, vs=vs, dom=raw.dom)
    gone = set(vs)
    if kind == "restrict": r = f.restrict(**{v: rng.choice(raw.dom[v]) for v in vs})
    elif kind == "sum": r = f.marginalize(*vs)
    elif kind == "max": r = f.maxmarginalize(*vs)
    elif kind == "rename":
        mp = {v: v + "q" for v in vs}; r = f.rename_vars(mp); part(r, kind)
        check(set(r.left_vars) == {mp.get(v, v) for v in f.left_vars} and set(r.right_vars) == {mp.get(v, v) for v in f.right_vars}, "renaming moved a variable to another side")
        return
    else:
        if f.vtype != "numpy": return
        r = f.restrict(**{v: list(raw.dom[v]) for v in vs}); gone = {v for v in vs if len(raw.dom[v]) == 1}
    part(r, kind)
    check(set(r.left_vars) == set(f.left_vars) - gone and set(r.right_vars) == set(f.right_vars) - gone, f"{kind} moved a variable to another side", left=r.left_vars, right=r.right_vars)

def rejected(rng, log):
    dom = domain(rng, ["A", "B", "C"][:rng.randint(2, 3)], 3)
    vs = list(dom); raw = raw_table(rng, dom)
    kw = rng.choice([dict(left_vars=[vs[0]], right_vars=[vs[0]] + vs[1:]), dict(left_vars=[vs[0]], right_vars=[]), dict(left_vars=[vs[0], "Q"], right_vars=vs[1:]),
                     dict(left_vars=vs[1:], right_vars=vs[1:]), dict(left_vars=[vs[0]], right_vars=vs[1:] + ["Q"]), dict(right_vars=["Q"]), dict(right_vars=vs[1:] + ["Q"])])
    log.update(dom=dom, kw=kw)
    raises(lambda: MultinomialFactor(dict(dom), raw.flat(), **kw), "contradictory sides were accepted", ValueError)
    dd = {v: dom[v] for v in vs}
    raises(lambda: DeterministicFactor(dd, [dom[vs[0]][0]] * 50, left_vars=vs[:2]), "two left variables of a function were accepted")

FAMILIES = dict(construct=construct, binary=binary, unary=unary, rejected=rejected)
