"""C13 c-components, Q-factorisation, likelihood."""
from .common import *
COUNTS = dict(components=160, qfactors=50, likelihood=40, fromdata=35, dagonly=40)

def comps(m):
    """classes of variables connected through exogenous variables (arcs that leave exogenous variables)"""
    par = {}
    def find(x):
        while par.setdefault(x, x) != x: x = par[x]
        return x
    for x, y in m.dag.edges:
        if x in m.exo: par[find(x)] = find(y)
    out = {}
    for v in par: out.setdefault(find(v), set()).add(v)
    return [frozenset(c) for c in out.values()]

def components(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 3, 4, 5]), n_exo=rng.choice([1, 2, 3, 4]), every_exo=rng.random() < .8, maxcard=2)
    log.update(edges=list(m.dag.edges), endo=m.endo)
    C = comps(m); M = m.model
    norm = lambda cs: sorted(map(sorted, cs))
    check(norm(M.ccomponents) == norm(C), "components", got=M.ccomponents, expected=C)
    check(norm(M.exo_ccomponents) == norm([c & set(m.exo) for c in C]), "exogenous part", got=M.exo_ccomponents)
    check(norm(M.endo_ccomponents) == norm([c & set(m.endo) for c in C]), "endogenous part", got=M.endo_ccomponents)
    for c in C:
        for v in c:
            check(set(M.get_ccomponent(v)) == c and set(M.get_exo_ccomponent(v)) == c & set(m.exo) and set(M.get_endo_ccomponent(v)) == c & set(m.endo), "component of a variable", variable=v)
    g = M.qgraph
    check(set(g.nodes) == set(m.endo), "variables of the observational graph", got=list(g.nodes))
    check(nx.is_directed_acyclic_graph(g), "the observational graph has a cycle", edges=list(g.edges))
    check({(x, y) for x, y in m.dag.edges if x in m.endo} <= set(g.edges), "an endogenous arc is missing", got=list(g.edges))
    check(set(M.endo_graph.edges) == {(x, y) for x, y in m.dag.edges if x in m.endo} and set(M.endo_graph.nodes) == set(m.endo), "endogenous graph")
    check(set(M.exo_graph.edges) == {(x, y) for x, y in m.dag.edges if x in m.exo}, "exogenous graph")
    # predecessors suffice: x is independent of its earlier variables given its predecessors is checked through the product below
    for x in m.endo:
        check(set(M.get_edogenous_parents(x)) == {p for p in m.pa[x] if p in m.endo} and set(M.get_exogenous_parents(x)) == {p for p in m.pa[x] if p in m.exo}, "parents by role")
    for u in m.exo: check(set(M.get_edogenous_children(u)) == {y for x, y in m.dag.edges if x == u} and M.get_exogenous_children(u) == [], "children by role")
    for v in m.dom: check(M.is_endogenous(v) == (v in m.endo) and M.is_exogenous(v) == (v in m.exo), "roles")

def endo_dist(m):
    d = {}
    for u, p in m.exo_space():
        w = m.worlds({}, u); k = tuple(w[x] for x in m.endo); d[k] = d.get(k, 0.0) + p
    return d

def qfactors(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 3, 3, 4]), vtype="numpy", maxcard=rng.choice([2, 3]), n_exo=rng.choice([1, 2, 3]))
    m.model = m.model.to_multinomial()
    log.update(scm=m)
    M = m.model
    q = M.get_qfactorisation()
    check(set(q) == set(m.endo), "one table per endogenous variable", got=list(q))
    g = M.qgraph
    for x, f in q.items():
        check(list(f.left_vars) == [x] and set(f.right_vars) == set(g.predecessors(x)), "sides of a table", variable=x, left=f.left_vars, right=f.right_vars)
    D = endo_dist(m)
    for s in itertools.product(*[m.dom[x] for x in m.endo]):
        a = dict(zip(m.endo, s)); p = 1.0
        for x, f in q.items(): p *= num(f.get_value(**{v: a[v] for v in f.variables}))
        check(close(p, D.get(s, 0.0), 1e-7), "the product of the tables is not the observational distribution", at=a, got=p, expected=D.get(s, 0.0))
    c = rng.choice(M.endo_ccomponents); v = rng.choice(sorted(c))
    qq = M.get_qfactors(v)
    check(set(qq) == set(c), "tables of one component", got=list(qq), expected=c)
    b = M.get_qbnet()
    check(set(b.graph.edges) == set(g.edges) and set(b.factors) == set(m.endo), "observational network")

def likelihood(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 3]), vtype=rng.choice(["numpy", "numpy", "numpy"]), n_exo=rng.choice([1, 2, 3]))
    data, recs = rnd_data(rng, m)
    m.model = m.model.to_multinomial()
    log.update(scm=m, data=recs)
    D = endo_dist(m)
    e = sum(math.log(D[tuple(r[x] for x in m.endo)]) for r in recs)
    g = m.model.log_likelihood(data)
    check(close(g, e, 1e-7), "log-likelihood", got=g, expected=e)

def fromdata(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([1, 2, 3]), vtype="numpy", n_exo=rng.choice([1, 2, 3]))
    data, recs = rnd_data(rng, m, rng.choice([3, 8, 15]))
    m.model = m.model.to_multinomial()
    log.update(scm=m, data=recs)
    q = m.model.get_qfactorisation(data)
    g = m.model.qgraph
    check(set(q) == set(m.endo), "one table per endogenous variable", got=list(q))
    for x, f in q.items():
        pr = list(g.predecessors(x))
        check(set(f.variables) == {x, *pr}, "variables of an empirical table", got=f.variables)
        for c in assignments({p: m.dom[p] for p in pr}):
            n = [r for r in recs if all(r[p] == s for p, s in c.items())]
            if not n: continue
            for s in m.dom[x]:
                e = sum(r[x] == s for r in n) / len(n)
                v = f.get_value(**{x: s}, **c)
                check(close(v, e, 1e-9), "empirical conditional frequency", at={x: s, **c}, got=v, expected=e)
    ll = 0.0
    for r in recs:
        for x in q:
            pr = list(g.predecessors(x)); n = [t for t in recs if all(t[p] == r[p] for p in pr)]
            ll += math.log(sum(t[x] == r[x] for t in n) / len(n))
    v = m.model.max_log_likelihood(data)
    check(close(v, ll, 1e-7), "maximal log-likelihood", got=v, expected=ll)
    D = endo_dist(m)
    check(ll >= sum(math.log(D[tuple(r[x] for x in m.endo)]) for r in recs) - 1e-7, "the maximal log-likelihood is below the one of the model")

def dagonly(rng, log):
    m = rnd_scm(rng, n_endo=rng.choice([3, 4, 5]), n_exo=rng.choice([2, 3]), maxcard=2)
    log.update(edges=list(m.dag.edges))
    M = StructuralCausalModel(m.dag)
    g = M.qgraph
    check(nx.is_directed_acyclic_graph(g), "cycle", edges=list(g.edges))
    # each predecessor is a parent in the component or a member of the component or a parent of itself
    C = {v: c for c in comps(m) for v in c}
    for x in m.endo:
        allowed = set(C[x]) | {p for y in C[x] if y in m.endo for p in m.pa[y]} | set(m.pa[x])
        check(set(g.predecessors(x)) <= allowed & set(m.endo), "a predecessor outside the component and its parents", variable=x, got=list(g.predecessors(x)))

FAMILIES = dict(components=components, qfactors=qfactors, likelihood=likelihood, fromdata=fromdata, dagonly=dagonly)
