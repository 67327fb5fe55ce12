"""C07 exact posteriors by variable elimination."""
from .common import *
from bcause.inference.probabilistic.elimination import VariableElimination
from bcause.inference.ordering import Heuristic
COUNTS = dict(posterior=90, conditional=45, structural=30, rejected=25, reuse=20)
HEUR = [None, Heuristic.MIN_FILL, Heuristic.MIN_SIZE, Heuristic.MIN_WEIGHT]

def user_heuristic(dag, to_remove, **kw): return sorted(to_remove, reverse=True)
def user_heuristic2(dag, to_remove, varsizes=None): return sorted(to_remove)

def rnd_query(rng, net, k=None):
    """target and evidence of positive probability"""
    vs = list(net.dom)
    t = rng.sample(vs, rng.choice([1, 1, min(2, len(vs)), min(3, len(vs))]))
    rest = [v for v in vs if v not in t]
    ev_vars = rng.sample(rest, rng.randint(0, min(len(rest), 3)))
    s = rng.choice(list(net.joint()))
    a = dict(zip(net.dom, s))
    return t, {v: a[v] for v in ev_vars}

def check_posterior(net, r, target, ev, what, tol=1e-7):
    post, z = net.posterior(target, ev)
    check(set(r.variables) == set(target), f"{what}: wrong variables", got=r.variables, expected=target)
    for v in target: check(list(r.domain[v]) == list(net.dom[v]), f"{what}: states of {v}", got=r.domain[v])
    for s in itertools.product(*[net.dom[v] for v in target]):
        g = r.get_value(**dict(zip(target, s)))
        check(close(g, post.get(s, 0.0), tol), f"{what}: wrong probability", at=dict(zip(target, s)), got=g, expected=post.get(s, 0.0), evidence=ev)
    check(set(r.left_vars) == set(target), f"{what}: the target is not on the left", left=r.left_vars)

def arg(rng, t):
    if len(t) == 1 and rng.random() < .6: return t[0]
    return list(t) if rng.random() < .7 else (set(t) if rng.random() < .5 else tuple(t))

def posterior(rng, log):
    net = rnd_net(rng)
    t, ev = rnd_query(rng, net)
    h = rng.choice(HEUR + [user_heuristic, user_heuristic2])
    log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()}, target=t, evidence=ev, heuristic=str(h), vtype=net.vtype)
    inf = VariableElimination(net.model, h) if h is not None else VariableElimination(net.model)
    if rng.random() < .7: r = inf.query(arg(rng, t), evidence=ev) if ev or rng.random() < .5 else inf.query(arg(rng, t))
    else: r = (inf.compile(arg(rng, t), ev) if ev else inf.compile(arg(rng, t))).run()
    check_posterior(net, r, t, ev, "posterior")

def conditional(rng, log):
    net = rnd_net(rng, n=rng.choice([2, 3, 3, 4, 5]), zeros=rng.random() < .6)
    t, ev = rnd_query(rng, net)
    rest = [v for v in net.dom if v not in t and v not in ev]
    c = rng.sample(rest, rng.randint(0, min(2, len(rest))))
    log.update(net=net, cpt={v: x.flat() for v, x in net.cpt.items()}, target=t, conditioning=c, evidence=ev, vtype=net.vtype)
    if net.vtype not in ("numpy",):
        # other storages divide by zero at impossible conditioning configurations
        ok = net.posterior(c, ev)[0]
        if len([1 for p in ok.values() if p > 0]) < int(np.prod([len(net.dom[v]) for v in c])): return
    inf = VariableElimination(net.model)
    r = inf.query(arg(rng, t), conditioning=(c[0] if len(c) == 1 and rng.random() < .5 else c), evidence=ev)
    check(set(r.variables) == set(t) | set(c), "conditional query: wrong variables", got=r.variables)
    check(set(r.left_vars) == set(t) and set(r.right_vars) == set(c), "conditional query: sides", left=r.left_vars, right=r.right_vars)
    for cs in assignments({v: net.dom[v] for v in c}):
        q = net.posterior(t, {**ev, **cs})
        if q is None: continue
        for s in itertools.product(*[net.dom[v] for v in t]):
            g = r.get_value(**dict(zip(t, s)), **cs)
            check(close(g, q[0].get(s, 0.0), 1e-7), "conditional query: wrong probability", at={**dict(zip(t, s)), **cs}, got=g, expected=q[0].get(s, 0.0))

def structural(rng, log):
    """specific structures: chains, v-structures, naive Bayes, disconnected parts, with evidence in many places"""
    n = rng.choice([3, 4, 5, 6, 7])
    vs = names(rng, n)
    shape = rng.choice(["chain", "collider", "naive", "two", "diamond", "tree"])
    e = []
    if shape == "chain": e = list(zip(vs, vs[1:]))
    elif shape == "collider": e = [(v, vs[-1]) for v in vs[:min(3, n - 1)]] + ([(vs[-1], vs[3])] if n > 4 else [])
    elif shape == "naive": e = [(vs[0], v) for v in vs[1:]]
    elif shape == "two": e = [(vs[0], vs[1])] + list(zip(vs[2:], vs[3:]))
    elif shape == "diamond": e = [(vs[0], vs[1]), (vs[0], vs[2]), (vs[1], vs[-1]), (vs[2], vs[-1])] if n > 3 else list(zip(vs, vs[1:]))
    else: e = [(vs[(i - 1) // 2], vs[i]) for i in range(1, n)]
    net = Net(); net.dom = domain(rng, vs, 2 if n > 5 else 3); net.dag = nx.DiGraph(e); net.dag.add_nodes_from(vs); net.vtype = rng.choice(["numpy", "numpy", "list", "treedict"])
    net.cpt = {}
    for v in net.dag.nodes:
        fam = shuffled(rng, [v] + list(net.dag.predecessors(v)))
        net.cpt[v] = raw_cpt(rng, {x: net.dom[x] for x in fam}, v)
    net.model = BayesianNetwork(net.dag, {v: factor(rng, c, net.vtype, left=[v]) for v, c in net.cpt.items()})
    t, ev = rnd_query(rng, net)
    log.update(shape=shape, net=net, cpt={v: c.flat() for v, c in net.cpt.items()}, target=t, evidence=ev)
    check_posterior(net, VariableElimination(net.model, rng.choice(HEUR[1:])).query(arg(rng, t), evidence=ev), t, ev, "posterior")

def reuse(rng, log):
    """one inference object answers several queries independently"""
    net = rnd_net(rng, n=rng.choice([3, 4, 5]))
    inf = VariableElimination(net.model)
    qs = [rnd_query(rng, net) for _ in range(3)]
    log.update(net=net, queries=qs, cpt={v: c.flat() for v, c in net.cpt.items()})
    for t, ev in qs: check_posterior(net, inf.query(t, evidence=ev), t, ev, "posterior (reused object)")

def rejected(rng, log):
    net = rnd_net(rng, n=rng.choice([2, 3]))
    vs = list(net.dom); inf = VariableElimination(net.model)
    log.update(net=net)
    raises(lambda: inf.query([vs[0], vs[0]]), "a repeated target was accepted")
    raises(lambda: inf.query(vs[0], evidence={vs[0]: net.dom[vs[0]][0]}), "a target in the evidence was accepted")
    raises(lambda: inf.query("NotThere"), "an unknown target was accepted")
    raises(lambda: inf.query(vs[0], evidence={"NotThere": 1}), "an unknown evidence variable was accepted")
    raises(lambda: inf.query(vs[0], conditioning=[vs[0]]), "a target in the conditioning set was accepted")
    raises(lambda: VariableElimination(net.model).run(), "an uncompiled inference answered")
    raises(lambda: VariableElimination(net.model, lambda g, x: x), "a heuristic with wrong arguments was accepted")

FAMILIES = dict(posterior=posterior, conditional=conditional, structural=structural, rejected=rejected, reuse=reuse)
