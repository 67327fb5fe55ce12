"""Generators, brute-force oracles and helpers of the bounded layer (runs the REAL code of /repo under CPython).

Nothing here imports from /repo except the public API that is exercised.  The oracles keep their own plain
dictionaries (raw tables) and never read a value through bcause when computing an expected result."""
import itertools, logging, math, os, random, sys, warnings
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
import numpy as np
import pandas as pd
import networkx as nx
import bcause
assert os.path.realpath(bcause.__file__).startswith(os.path.realpath(REPO)), bcause.__file__
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.factors.values import store_dict
from bcause.models import BayesianNetwork
from bcause.models.cmodel import StructuralCausalModel

STORES = list(store_dict.keys())

class Violation(Exception):
    pass

def fail(msg, **ctx):
    raise Violation(msg + ("" if not ctx else " | " + ", ".join(f"{k}={short(v)}" for k, v in ctx.items())))

def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."

def check(cond, msg, **ctx):
    if not cond: fail(msg, **ctx)

def num(x):
    a = np.asarray(x)
    if a.size != 1: fail("a single number was expected", got=x)
    return float(a.reshape(-1)[0])

def close(a, b, tol=1e-9):
    a, b = num(a), num(b)
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

def raises(fn, msg, exc=Exception, **ctx):
    try:
        r = fn()
    except Violation:
        raise
    except exc:
        return
    fail(msg + " (accepted)", result=r, **ctx)

# ------------------------------------------------------------------ domains and tables
NAMES = ["A", "B", "C", "D", "E", "X", "Y", "Z", "AB", "BA", "V1", "V10", "V100", "V", "U", "U1", "U10", "W", "left", "obs", "v", "name2", "Aa"]

def names(rng, n):
    if rng.random() < .35:
        pool = ["V", "V1", "V10", "V100", "V11", "1V", "VV", "V0"]
        if n <= len(pool): return rng.sample(pool, n)
    return rng.sample(NAMES, n)

def states(rng, v, c, kinds=None):
    kind = rng.choice(kinds or ["range", "range", "str", "str", "ints", "bool", "range1", "strmix", "float"])
    if kind == "bool" and c != 2: kind = "str"
    if kind == "range": return list(range(c))
    if kind == "range1": return list(range(1, c + 1))
    if kind == "ints": return rng.sample([3, 1, 7, -2, 0, 10, 5, 100], c)
    if kind == "bool": return rng.choice([[True, False], [False, True]])
    if kind == "strmix": return rng.sample(["a", "b", "ab", "aa", "1", "0", "x1", "x10", "no"], c)
    if kind == "float": return rng.sample([0.5, 1.5, -1.0, 2.0, 3.25], c)
    return [f"{v.lower()}{i}" for i in range(c)]

def domain(rng, vs, maxcard=4, kinds=None, mincard=1):
    cards = [c for c in (2, 2, 2, 3, 3, 4, 1) if mincard <= c <= maxcard]
    return {v: states(rng, v, rng.choice(cards), kinds) for v in vs}

def assignments(dom):
    ks = list(dom)
    for s in itertools.product(*[dom[k] for k in ks]):
        yield dict(zip(ks, s))

def key(dom, a):
    return tuple(a[v] for v in dom)

def rnd_value(rng, mode):
    if mode == "int": return float(rng.randint(-6, 6))
    if mode == "nonzero": return float(rng.choice([-4, -3, -2, -1, 1, 2, 3, 5, .5, .25]))
    if mode == "zeros": return float(rng.choice([0, 0, 1, 2, .5]))
    if mode == "dyadic": return rng.randint(0, 64) / 64
    return rng.uniform(-3, 3)

class Raw:
    """A plain table: ordered domain + dict from the tuple of states to a number."""
    def __init__(self, dom, tab): self.dom, self.tab = dict(dom), tab
    def at(self, a): return self.tab[key(self.dom, a)]
    def flat(self): return [self.tab[key(self.dom, a)] for a in assignments(self.dom)]
    def nested(self):
        return np.array(self.flat(), dtype=float).reshape([len(d) for d in self.dom.values()])

def raw_table(rng, dom, mode=None):
    mode = mode or rng.choice(["int", "int", "nonzero", "dyadic", "float", "zeros"])
    tab = {key(dom, a): rnd_value(rng, mode) for a in assignments(dom)}
    if len(dom) > 1 and rng.random() < .25:
        # parts of the table do not depend on some of the variables
        for _ in range(rng.randint(1, 3)):
            part = {v: rng.choice(dom[v]) for v in rng.sample(list(dom), rng.randint(1, len(dom) - 1))}
            x = rnd_value(rng, mode)
            for a in assignments(dom):
                if all(a[v] == s for v, s in part.items()): tab[key(dom, a)] = x
    return Raw(dom, tab)

def tree_arg(rng, raw):
    """the table as a tree: other orders of the variables, also different ones in different branches; constant parts may be leaves"""
    from bcause.util.treesutil import treeNode
    prune = rng.random() < .8; fixed = shuffled(rng, raw.dom) if rng.random() < .5 else None
    def build(free, a):
        vals = [raw.at({**a, **b}) for b in assignments({v: raw.dom[v] for v in free})]
        if not free or prune and len(set(vals)) == 1: return vals[0]
        v = next(x for x in fixed if x in free) if fixed else rng.choice(sorted(free, key=str))
        return treeNode(v, {s: build([x for x in free if x != v], {**a, v: s}) for s in raw.dom[v]})
    return build(list(raw.dom), {})

def raw_cpt(rng, dom, left, zeros=True):
    """P(left | rest), dyadic or float, with zeros."""
    rest = {v: d for v, d in dom.items() if v != left}
    tab = {}
    for a in assignments(rest):
        k = len(dom[left])
        m = rng.random()
        if zeros and m < .2:
            w = [0.0] * k; w[rng.randrange(k)] = 1.0
        elif m < .6:
            w = [float(rng.randint(0 if zeros else 1, 5)) for _ in range(k)]
            if sum(w) == 0: w[rng.randrange(k)] = 1.0
        else:
            w = [rng.random() + (0 if zeros else 1e-3) for _ in range(k)]
        s = sum(w)
        for x, p in zip(dom[left], w):
            tab[key(dom, {**a, left: x})] = p / s
    return Raw(dom, tab)

def shuffled(rng, xs):
    xs = list(xs); rng.shuffle(xs); return xs

def values_arg(rng, raw, form=None):
    """The values in one of the accepted forms."""
    form = form or rng.choice(["flat", "nested", "array", "flatarray"])
    flat = raw.flat()
    if form == "flat": return flat
    if form == "flatarray": return np.array(flat)
    arr = raw.nested()
    return arr if form == "array" or len(raw.dom) == 0 else arr.tolist()

def factor(rng, raw, vtype=None, left=None, right=None, form=None):
    vtype = vtype or rng.choice(STORES)
    if vtype == "treedict" and form is None and raw.dom and rng.random() < .5:
        t = tree_arg(rng, raw)
        if isinstance(t, dict): return MultinomialFactor({v: list(d) for v, d in raw.dom.items()}, t, left_vars=left, right_vars=right, vtype=vtype)
    return MultinomialFactor({v: list(d) for v, d in raw.dom.items()}, values_arg(rng, raw, form), left_vars=left, right_vars=right, vtype=vtype)

def rnd_factor(rng, vs=None, n=None, vtype=None, mode=None, dom=None, sides=True, maxcard=4):
    if dom is None:
        vs = vs if vs is not None else names(rng, n if n is not None else rng.randint(1, 4))
        dom = domain(rng, vs, maxcard)
    raw = raw_table(rng, dom, mode)
    right = None
    if sides and dom and rng.random() < .7:
        right = rng.sample(list(dom), rng.randint(0, len(dom)))
        right = [v for v in dom if v in right] if rng.random() < .5 else right
    f = factor(rng, raw, vtype, right=right)
    return f, raw

def expect_table(f, dom, fn, what, tol=1e-9, order=True, **ctx):
    """f ranges over exactly dom (in that order if asked) and has value fn(a) at every assignment a."""
    got = dict(f.domain)
    if order: check(list(got) == list(dom), f"{what}: wrong variables", got=list(got), expected=list(dom), **ctx)
    else: check(set(got) == set(dom), f"{what}: wrong variables", got=list(got), expected=list(dom), **ctx)
    for v in dom: check(list(got[v]) == list(dom[v]), f"{what}: wrong states of {v}", got=got[v], expected=dom[v], **ctx)
    for a in assignments(dom):
        e, g = fn(a), f.get_value(**a)
        check(close(g, e, tol), f"{what}: wrong value", at=a, got=g, expected=e, **ctx)

def snapshot_factor(f):
    st = f.store
    return (tuple((v, tuple(map(repr, d))) for v, d in f.domain.items()), tuple(f.variables), tuple(f.left_vars), tuple(f.right_vars),
            tuple(str(x) if np.asarray(x).dtype.kind in "US" else repr(num(x)) for x in st.values_list), f.vtype)

def snapshot_model(m):
    return (tuple(m.graph.nodes), tuple(m.graph.edges), tuple((v, tuple(map(repr, d)) if d is not None else None) for v, d in m.domains.items()),
            tuple((v, snapshot_factor(f)) for v, f in m.factors.items()), tuple(getattr(m, "endogenous", ())))

# ------------------------------------------------------------------ networks
class Net:
    """Raw Bayesian network: ordered nodes, parents, domains and raw CPTs + the bcause model."""
    def joint(self):
        if not hasattr(self, "_joint"):
            J = {}
            ks = list(self.dom)
            cpts = list(self.cpt.values())
            for a in assignments(self.dom):
                p = 1.0
                for c in cpts:
                    p *= c.at(a)
                    if p == 0: break
                if p > 0: J[tuple(a[k] for k in ks)] = p
            self._joint = J
        return self._joint
    def prob(self, ev):
        ks = list(self.dom); idx = {k: i for i, k in enumerate(ks)}
        return sum(p for s, p in self.joint().items() if all(s[idx[v]] == x for v, x in ev.items()))
    def posterior(self, target, ev):
        """dict from tuple of target states to probability (None if the evidence has probability 0)."""
        ks = list(self.dom); idx = {k: i for i, k in enumerate(ks)}
        out, z = {}, 0.0
        for s, p in self.joint().items():
            if all(s[idx[v]] == x for v, x in ev.items()):
                t = tuple(s[idx[v]] for v in target)
                out[t] = out.get(t, 0.0) + p; z += p
        return None if z == 0 else ({k: v / z for k, v in out.items()}, z)
    def __repr__(self):
        return f"Net(edges={list(self.dag.edges)}, nodes={list(self.dag.nodes)}, dom={self.dom})"

def rnd_dag(rng, vs, density=None, maxpar=3):
    order = shuffled(rng, vs)
    density = rng.choice([.2, .4, .6, .9]) if density is None else density
    edges = []
    for j, y in enumerate(order):
        pa = [x for x in order[:j] if rng.random() < density][:maxpar]
        edges += [(x, y) for x in shuffled(rng, pa)]
    dag = nx.DiGraph()
    nodes = shuffled(rng, vs)
    if rng.random() < .5: dag.add_nodes_from(nodes)
    rng.shuffle(edges)
    dag.add_edges_from(edges)
    dag.add_nodes_from(nodes)
    return dag

def rnd_net(rng, n=None, vtype=None, maxcard=3, zeros=True, kinds=None, density=None, vs=None, mincard=1, prefix=False):
    n = n if n is not None else rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6])
    if n >= 5: maxcard = min(maxcard, 3)
    net = Net()
    vs = vs or names(rng, n)
    net.dom = domain(rng, vs, maxcard, kinds, mincard)
    net.dag = rnd_dag(rng, vs, density)
    net.vtype = vtype or rng.choice(["numpy", "numpy", "numpy", "list", "treedict", "numpy1d"])
    net.cpt, net.factors = {}, {}
    for v in net.dag.nodes:
        pa = list(net.dag.predecessors(v))
        fam = [v] + pa
        mode = rng.random()
        if mode < .4: fam = pa + [v]
        elif mode < .8: fam = shuffled(rng, fam)
        net.cpt[v] = raw_cpt(rng, {x: net.dom[x] for x in fam}, v, zeros)
        net.factors[v] = factor(rng, net.cpt[v], net.vtype, **({"left": [v]} if rng.random() < .5 else {"right": [x for x in fam if x != v]}))
    net.model = BayesianNetwork(net.dag, net.factors if rng.random() < .5 else list(net.factors.values()))
    return net

# ------------------------------------------------------------------ structural models
class Scm(Net):
    def worlds(self, do, u):
        """All endogenous values in the world with intervention do and exogenous values u."""
        val = dict(u)
        for x in self.topo:
            if x in do: val[x] = do[x]
            else: val[x] = self.eq[x][tuple(val[p] for p in self.pa[x])]
        return val
    def exo_space(self):
        for s in itertools.product(*[self.dom[u] for u in self.exo]):
            a = dict(zip(self.exo, s)); p = 1.0
            for u in self.exo: p *= self.pu[u][a[u]]
            if p > 0: yield a, p
    def __repr__(self):
        return f"Scm(edges={list(self.dag.edges)}, dom={self.dom}, endo={self.endo}, exo={self.exo}, vtype={self.vtype}, pu={self.pu}, eq={self.eq})"

def rnd_scm(rng, n_endo=None, n_exo=None, vtype=None, one_exo=False, every_exo=True, maxcard=3, deterministic=None, zeros=True, kinds=None,
            exo_card=None, clash=False, mincard=2, build=True, positive=False):
    m = Scm()
    n_endo = n_endo or rng.choice([1, 2, 2, 3, 3, 4])
    pool = ["X", "Y", "Z", "W", "V1", "V10", "A", "B", "V"]
    m.endo = rng.sample(pool, n_endo)
    n_exo = n_exo or rng.choice([1, 2, 2, 3])
    m.exo = rng.sample(["U", "U1", "U2", "U10", "N", "H"], n_exo)
    order = shuffled(rng, m.endo)
    m.dom = {}
    for v in m.endo: m.dom[v] = states(rng, v, rng.choice([c for c in (2, 2, 3, 1) if mincard <= c <= maxcard]), kinds)
    for u in m.exo: m.dom[u] = states(rng, u, exo_card or rng.choice([2, 3, 4, 2]), kinds)
    edges = []
    dens = rng.choice([.2, .5, .8])
    exo_of = {}
    for j, y in enumerate(order):
        pa = [x for x in order[:j] if rng.random() < dens][:2]
        if one_exo: us = [rng.choice(m.exo)]
        else: us = rng.sample(m.exo, rng.choice([1, 1, 1, min(2, len(m.exo))]))
        if not every_exo and pa and rng.random() < .25: us = []
        exo_of[y] = us
        edges += [(p, y) for p in shuffled(rng, pa + us)]
    used = {u for us in exo_of.values() for u in us}
    m.exo = [u for u in m.exo if u in used]
    m.dom = {v: d for v, d in m.dom.items() if v in m.endo or v in used}
    rng.shuffle(edges)
    m.dag = nx.DiGraph()
    if rng.random() < .5: m.dag.add_nodes_from(shuffled(rng, list(m.dom)))
    m.dag.add_edges_from(edges)
    m.topo = order
    m.pa = {x: list(m.dag.predecessors(x)) for x in m.endo}
    m.eq = {}
    for x in m.endo:
        tab = {}
        for s in itertools.product(*[m.dom[p] for p in m.pa[x]]): tab[s] = rng.choice(m.dom[x])
        m.eq[x] = tab
    m.pu = {}
    for u in m.exo:
        w = [float(rng.randint(0 if zeros else 1, 5)) if rng.random() < .6 else rng.random() + 1e-3 for _ in m.dom[u]]
        if sum(w) == 0: w[0] = 1.0
        m.pu[u] = {s: p / sum(w) for s, p in zip(m.dom[u], w)}
    m.vtype = vtype or rng.choice(["numpy", "numpy", "numpy", "list", "treedict", "numpy1d"])
    m.deterministic = deterministic if deterministic is not None else rng.random() < .4
    m.cpt = {}
    for x in m.endo:
        fam = [x] + m.pa[x]
        if rng.random() < .6: rng.shuffle(fam)
        d = {v: m.dom[v] for v in fam}
        m.cpt[x] = Raw(d, {key(d, a): 1.0 if m.eq[x][tuple(a[p] for p in m.pa[x])] == a[x] else 0.0 for a in assignments(d)})
    for u in m.exo: m.cpt[u] = Raw({u: m.dom[u]}, {(s,): m.pu[u][s] for s in m.dom[u]})
    m.factors = {}
    for u in m.exo: m.factors[u] = factor(rng, m.cpt[u], m.vtype)
    for x in m.endo:
        if m.deterministic and rng.random() < .8:
            m.factors[x] = det_factor(rng, m, x)
        else:
            m.factors[x] = factor(rng, m.cpt[x], m.vtype, left=[x])
    m.cast = rng.random() < .5
    if build:
        m.model = StructuralCausalModel(m.dag, m.factors if rng.random() < .5 else list(m.factors.values()), cast_multinomial=m.cast)
    return m

def det_factor(rng, m, x, vtype=None):
    vtype = vtype or (m.vtype if m.vtype in ("numpy", "list", "treedict") else "numpy")
    if m.vtype == "numpy1d": vtype = "numpy1d"
    d = m.cpt[x].dom
    right = {v: s for v, s in d.items() if v != x}
    vals = [m.eq[x][tuple(a[p] for p in m.pa[x])] for a in assignments(right)]
    if right and rng.random() < .3:
        arr = np.empty([len(s) for s in right.values()], dtype=object)
        arr.reshape(-1)[:] = vals
        vals2 = arr.tolist()
        return DeterministicFactor(dict(d), vals2, left_vars=[x], vtype=vtype)
    return DeterministicFactor(dict(d), vals, left_vars=[x], vtype=vtype)

def rnd_data(rng, m, n=None, as_states=True):
    """Endogenous records with positive probability in the structural model."""
    n = n or rng.choice([1, 2, 5, 10, 20])
    worlds = [(m.worlds({}, u), p) for u, p in m.exo_space()]
    recs = []
    for _ in range(n):
        w = rng.choice(worlds)[0]
        recs.append({x: w[x] for x in m.endo})
    cols = shuffled(rng, m.endo)
    return pd.DataFrame([{c: r[c] for c in cols} for r in recs], columns=cols), recs
