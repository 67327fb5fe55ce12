"""C23 graph utilities."""
from .common import *
import bcause.util.graphutils as gu
COUNTS = dict(strings=150, barren=200, edges=150, dsep=150, connectivity=120, blanket=150, rel=100)

def g_(rng, nmax=7):
    vs = names(rng, rng.randint(1, nmax)); return rnd_dag(rng, vs, maxpar=4)

def snap(g): return (list(g.nodes), sorted(map(str, g.edges)))
def same(a, b, what): check(set(a.nodes) == set(b.nodes) and set(a.edges) == set(b.edges), what, got=(list(a.nodes), list(a.edges)), expected=(list(b.nodes), list(b.edges)))

def strings(rng, log):
    g = g_(rng); log.update(edges=list(g.edges), nodes=list(g.nodes)); s0 = snap(g)
    s = gu.dag2str(g); same(gu.str2dag(s), g, "graph -> text -> graph")
    t = "".join("[" + v + ("|" + ":".join(shuffled(rng, list(g.predecessors(v)))) if list(g.predecessors(v)) else "") + "]" for v in shuffled(rng, list(g.nodes)))
    h = gu.str2dag(t); same(h, g, "text -> graph"); same(gu.str2dag(gu.dag2str(h)), g, "text -> graph -> text -> graph")
    m = BayesianNetwork(g); same(gu.str2dag(m.get_dag_str()), g, "text of a model"); same(BayesianNetwork(t).graph, g, "model from text")
    check(snap(g) == s0, "the graph changed")

def desc(g, v): 
    out, st = set(), [v]
    while st:
        for y in g.successors(st.pop()):
            if y not in out: out.add(y); st.append(y)
    return out

def subset(rng, xs, kinds=("set", "list", "none")):
    k = rng.choice(kinds); s = rng.sample(list(xs), rng.randint(0, len(xs)))
    return (set(s), set(s)) if k == "set" else ((list(s), set(s)) if k == "list" else (None, set()))

def barren(rng, log):
    g = g_(rng, 8); S, S_ = subset(rng, g.nodes); log.update(edges=list(g.edges), nodes=list(g.nodes), S=S); s0 = snap(g)
    e = {v for v in g.nodes if v not in S_ and not (desc(g, v) & S_)}
    b = gu.barren_nodes(g, S) if S is not None or rng.random() < .5 else gu.barren_nodes(g)
    check(set(b) == e, "barren nodes", got=b, expected=e)
    r = gu.barren_removal(g, S); same(r, g.subgraph([v for v in g.nodes if v not in e]), "graph without barren nodes")
    check(snap(g) == s0, "the graph changed")

def edges(rng, log):
    g = g_(rng); V, V_ = subset(rng, g.nodes, ("list", "set")); log.update(edges=list(g.edges), nodes=list(g.nodes), V=V); s0 = snap(g)
    i, o, r = gu.remove_ingoing_edges(g, V), gu.remove_outgoing_edges(g, V), gu.remove_nodes(g, V)
    check(set(i.nodes) == set(g.nodes) and set(i.edges) == {(x, y) for x, y in g.edges if y not in V_}, "incoming arcs removed", got=list(i.edges))
    check(set(o.nodes) == set(g.nodes) and set(o.edges) == {(x, y) for x, y in g.edges if x not in V_}, "outgoing arcs removed", got=list(o.edges))
    check(set(r.nodes) == set(g.nodes) - V_ and set(r.edges) == {(x, y) for x, y in g.edges if x not in V_ and y not in V_}, "nodes removed", got=list(r.edges))
    check(snap(g) == s0, "the graph changed")
    i.add_node("__new__"); o.add_node("__new__"); r.add_node("__new__"); check(snap(g) == s0, "the result shares its nodes with the input")

def dsep(g, t, v, z):
    """active trail from t to v given z (reachability over trails)"""
    anc = set(z)
    for x in z: anc |= {a for a in g.nodes if x in desc(g, a)}
    seen, st = set(), [(t, "up")]
    while st:
        x, d = st.pop()
        if (x, d) in seen: continue
        seen.add((x, d))
        if x == v and x not in z: return False
        if d == "up" and x not in z:
            st += [(p, "up") for p in g.predecessors(x)] + [(c, "down") for c in g.successors(x)]
        elif d == "down":
            if x not in z: st += [(c, "down") for c in g.successors(x)]
            if x in anc: st += [(p, "up") for p in g.predecessors(x)]
    return True

def dsep_(rng, log):
    g = g_(rng); t = rng.choice(list(g.nodes)); E = rng.sample([v for v in g.nodes if v != t], rng.randint(0, len(g.nodes) - 1)); s0 = snap(g)
    Ea = rng.choice([list, set, tuple])(E) if rng.random() < .5 else list(E)
    if isinstance(Ea, tuple): Ea = list(Ea)
    log.update(edges=list(g.edges), nodes=list(g.nodes), target=t, evidence=E)
    e = {v for v in g.nodes if v != t and dsep(g, t, v, set(E) - {v})}
    d = gu.dsep_nodes(g, t, Ea); c = gu.dcon_nodes(g, t, Ea)
    check(set(d) - {t} == e, "d-separated nodes", got=d, expected=e)
    check(set(c) == set(g.nodes) - e - {t}, "d-connected nodes", got=c, expected=set(g.nodes) - e - {t})
    check(snap(g) == s0, "the graph changed")

def comp(g, t):
    out, st = {t}, [t]
    while st:
        x = st.pop()
        for y in [*g.successors(x), *g.predecessors(x)]:
            if y not in out: out.add(y); st.append(y)
    return out

def connectivity(rng, log):
    g = g_(rng); s0 = snap(g); T = rng.sample(list(g.nodes), rng.randint(1, min(3, len(g.nodes)))); log.update(edges=list(g.edges), nodes=list(g.nodes), target=T)
    e = set().union(*[comp(g, t) for t in T]); arg = T[0] if len(T) == 1 and rng.random() < .6 else list(T)
    for v in g.nodes: check(bool(gu.connected(g, arg, v)) == (v in e), "connected", node=v, expected=v in e)
    check(set(gu.disconnected_nodes(g, arg)) == set(g.nodes) - e, "disconnected nodes", got=gu.disconnected_nodes(g, arg), expected=set(g.nodes) - e)
    check(snap(g) == s0, "the graph changed")

def blanket(rng, log):
    g = g_(rng); s0 = snap(g); v = rng.choice(list(g.nodes)); ch = set(g.successors(v))
    H = rng.sample([x for x in g.nodes if x != v], rng.randint(0, len(g.nodes) - 1)); log.update(edges=list(g.edges), nodes=list(g.nodes), v=v, hidden=H)
    e = (ch | set(g.predecessors(v)) | {p for c in ch for p in g.predecessors(c)}) - {v}
    check(set(gu.markov_blanket(g, v)) == e, "Markov blanket", got=gu.markov_blanket(g, v), expected=e)
    b = BayesianNetwork(g).markov_blanket(v); check(set(b) == e and len(b) == len(e), "Markov blanket of a model", got=b, expected=e)
    m = gu.markov_blanket(g, v, hidden=H)
    if not H: check(set(m) == e, "Markov blanket without hidden variables", got=m)
    else:
        O = set(g.nodes) - set(H) - {v}
        eh = {x for x in g.nodes if x != v and not dsep(g, v, x, O - {x})}
        check(set(m) == eh, "Markov blanket with hidden variables", got=m, expected=eh)
        # it screens v off from every other observed variable
        B = set(m) & O
        for x in O - B: check(dsep(g, v, x, B), "the observed part of the blanket does not screen off", node=x, blanket=B)
    check(snap(g) == s0, "the graph changed")

def rel(rng, log):
    g = g_(rng); log.update(edges=list(g.edges)); m = BayesianNetwork(g)
    for v in g.nodes:
        r = gu.relevat_vars(g, v); check(len(r) == len(set(r)) and set(r) == {v} | set(g.predecessors(v)) and r[-1] == v, "a variable and its parents", got=r)
    V = rng.sample(list(g.nodes), rng.randint(1, len(g.nodes)))
    p, c = m.get_parents(*V), m.get_children(*V)
    check(len(p) == len(set(p)) and set(p) == {x for v in V for x in g.predecessors(v)}, "parents", got=p)
    check(len(c) == len(set(c)) and set(c) == {x for v in V for x in g.successors(v)}, "children", got=c)

FAMILIES = dict(strings=strings, barren=barren, edges=edges, dsep=dsep_, connectivity=connectivity, blanket=blanket, rel=rel)
