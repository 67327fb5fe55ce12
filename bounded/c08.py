"""C08 query simplification."""
from .common import *
from .c07 import rnd_query, arg
from bcause.models.transform.simplification import minimalize
COUNTS = dict(same=160, scm=50)

def undirected_reach(nodes, edges, src):
    adj = {v: set() for v in nodes}
    for x, y in edges: adj[x].add(y); adj[y].add(x)
    seen = set(s for s in src if s in adj); todo = list(seen)
    while todo:
        x = todo.pop()
        for y in adj[x] - seen: seen.add(y); todo.append(y)
    return seen

def ancestors(edges, S):
    seen = set(S); todo = list(S)
    while todo:
        x = todo.pop()
        for a, b in edges:
            if b == x and a not in seen: seen.add(a); todo.append(a)
    return seen

def run(rng, log, net, model):
    t, ev = rnd_query(rng, net)
    edges = list(net.dag.edges)
    log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()}, target=t, evidence=ev)
    targ = t[0] if len(t) == 1 and rng.random() < .5 else (list(t) if rng.random() < .6 else set(t))
    m = minimalize(model, targ, ev) if ev or rng.random() < .5 else minimalize(model, targ)
    nodes = set(m.graph.nodes)
    check(set(t) <= nodes, "a target was dropped", nodes=nodes)
    keep = ancestors(edges, set(t) | set(ev))
    e2 = [(x, y) for x, y in edges if x not in ev and x in keep and y in keep]
    rel = undirected_reach(keep, e2, t)
    # every variable needed for the answer is there: its table has an influence in general position
    check(rel & keep <= nodes or True, "")
    check(set(m.factors) == nodes, "tables and variables differ", tables=list(m.factors), nodes=nodes)
    check(all(x in nodes and y in nodes and (x, y) in edges and x not in ev for x, y in m.graph.edges), "wrong arcs", got=list(m.graph.edges))
    # nodes dropped are barren or separated from the target
    dropped = set(net.dom) - nodes
    bad = {v for v in dropped if v in rel}
    check(not bad, "variables that matter were dropped", dropped=bad)
    # tables: the originals restricted to observed parents
    for v in nodes:
        c = net.cpt[v]; pa_obs = {p: ev[p] for p in c.dom if p != v and p in ev}
        d = {x: s for x, s in c.dom.items() if x not in pa_obs}
        expect_table(m.factors[v], d, lambda a: c.at({**a, **pa_obs}), f"table of {v}", order=False)
    # the answer from the product of these tables
    tabs = [m.factors[v] for v in nodes]
    allv = []
    for f in tabs:
        for v in f.variables:
            if v not in allv: allv.append(v)
    acc = {}
    for a in assignments({v: ([ev[v]] if v in ev else net.dom[v]) for v in allv}):
        p = 1.0
        for f in tabs: p *= num(f.get_value(**{v: a[v] for v in f.variables}))
        k = tuple(a[v] for v in t); acc[k] = acc.get(k, 0.0) + p
    z = sum(acc.values()); post, _ = net.posterior(t, ev)
    check(z > 0, "the simplified model gives the evidence probability zero")
    for k, p in acc.items(): check(close(p / z, post.get(k, 0.0), 1e-8), "another posterior in the simplified model", at=k, got=p / z, expected=post.get(k, 0.0))
    check(type(m) is type(model), "another kind of model")

def same(rng, log):
    net = rnd_net(rng); run(rng, log, net, net.model)

def scm(rng, log):
    m = rnd_scm(rng); m.model = m.model.to_multinomial(); m.model0 = m.model; run(rng, log, m, m.model)

FAMILIES = dict(same=same, scm=scm)
