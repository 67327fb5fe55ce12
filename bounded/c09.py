"""C09 elimination orders."""
from .common import *
from .c07 import rnd_query, check_posterior
from bcause.inference.ordering import *
from bcause.inference.probabilistic.elimination import VariableElimination
COUNTS = dict(orders=200, answers=40)
FN = dict(MIN_FILL=min_fill_heuristic, MIN_SIZE=min_size_heuristic, MIN_WEIGHT=min_weight_heuristic)

def moral(dag):
    adj = {v: set() for v in dag.nodes}
    for x, y in dag.edges: adj[x].add(y); adj[y].add(x)
    for v in dag.nodes:
        pa = list(dag.predecessors(v))
        for a in pa:
            for b in pa:
                if a != b: adj[a].add(b)
    return adj

def cost(kind, adj, v, sizes):
    if kind == "MIN_SIZE": return len(adj[v])
    if kind == "MIN_WEIGHT":
        p = sizes[v]
        for w in adj[v]: p *= sizes[w]
        return p
    nb = sorted(adj[v])
    return sum(1 for i, a in enumerate(nb) for b in nb[i + 1:] if b not in adj[a])

def orders(rng, log):
    n = rng.randint(1, 8); vs = names(rng, n)
    dag = rnd_dag(rng, vs)
    rem = rng.sample(vs, rng.randint(0, n)); sizes = {v: rng.randint(1, 5) for v in vs}
    kind = rng.choice(list(FN))
    log.update(edges=list(dag.edges), nodes=list(dag.nodes), to_remove=rem, sizes=sizes, heuristic=kind)
    fn = FN[kind] if rng.random() < .5 else heuristic_functions[getattr(Heuristic, kind).name]
    before = (list(dag.nodes), list(dag.edges))
    kw = dict(varsizes=sizes) if kind == "MIN_WEIGHT" or rng.random() < .5 else {}
    o = [str(x) for x in fn(dag, to_remove=list(rem), **kw)]
    check(sorted(o) == sorted(rem), "the order is no permutation of the variables to remove", got=o, expected=rem)
    check((list(dag.nodes), list(dag.edges)) == before, "the graph was modified")
    adj = moral(dag); left = list(rem)
    for v in o:
        costs = {w: cost(kind, adj, w, sizes) for w in left}
        check(costs[v] == min(costs.values()), "not a variable of least cost", variable=v, costs=costs, order=o)
        nb = adj[v]
        for a in nb:
            adj[a] |= nb - {a}; adj[a].discard(v)
        del adj[v]; left.remove(v)
    if kind == "MIN_WEIGHT": raises(lambda: min_weight_heuristic(dag, to_remove=list(rem)), "sizes missing", ValueError)

def answers(rng, log):
    net = rnd_net(rng, n=rng.choice([3, 4, 5]), vtype="numpy")
    t, ev = rnd_query(rng, net)
    log.update(net=net, target=t, evidence=ev, cpt={v: c.flat() for v, c in net.cpt.items()})
    perm_seed = rng.random()
    def user(dag, to_remove, varsizes=None):
        import random as R
        o = list(to_remove); R.Random(perm_seed).shuffle(o); return o
    for h in [Heuristic.MIN_FILL, Heuristic.MIN_SIZE, Heuristic.MIN_WEIGHT, min_fill_heuristic, user]:
        check_posterior(net, VariableElimination(net.model, h).query(t, evidence=ev), t, ev, f"heuristic {h}")

FAMILIES = dict(orders=orders, answers=answers)
