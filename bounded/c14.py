"""C14 models stay consistent."""
from .common import *
COUNTS = dict(valid=80, invalid=120, rename=80, submodel=60, copy=60, probs=60, strings=60, scm_invalid=40)

def check_net(net, M, what):
    check(set(M.graph.nodes) == set(net.dom) and set(M.variables) == set(net.dom), f"{what}: variables", got=M.variables)
    check(set(M.graph.edges) == set(net.dag.edges), f"{what}: arcs", got=list(M.graph.edges))
    check({v: list(d) for v, d in M.domains.items()} == net.dom, f"{what}: domains", got=M.domains)
    check(M.varsizes == {v: len(d) for v, d in net.dom.items()}, f"{what}: sizes", got=M.varsizes)
    for v in net.dom:
        f = M.factors[v]
        g = f.to_multinomial() if isinstance(f, DeterministicFactor) else f
        expect_table(g, net.cpt[v].dom, net.cpt[v].at, f"{what}: table of {v}", order=False)
        check(list(f.left_vars) == [v] and set(f.right_vars) == set(net.dag.predecessors(v)), f"{what}: sides of {v}")
        check(set(M.get_parents(v)) == set(net.dag.predecessors(v)) and set(M.get_children(v)) == set(net.dag.successors(v)), f"{what}: neighbours of {v}")
        check(M.get_domains(v) == {v: net.dom[v]} and M.get_domains([v]) == {v: net.dom[v]} and M.get_varsizes(v) == {v: len(net.dom[v])}, f"{what}: domain of {v}", got=M.get_domains(v))
    vs = list(net.dom)
    check(set(M.get_parents(*vs)) == {x for x, _ in net.dag.edges} and len(M.get_parents(*vs)) == len(set(M.get_parents(*vs))), f"{what}: parents of several")
    check(set(M.get_children(*vs)) == {y for _, y in net.dag.edges}, f"{what}: children of several")
    check([id(f) for f in M.get_factors(*vs)] == [id(M.factors[v]) for v in vs] and len(M.factor_list) == len(vs), f"{what}: lists of tables")

def valid(rng, log):
    net = rnd_net(rng) if rng.random() < .5 else rnd_scm(rng, every_exo=rng.random() < .7)
    log.update(net=net)
    check_net(net, net.model, "construction")
    if isinstance(net, Scm):
        check(set(net.model.endogenous) == set(net.endo) and set(net.model.exogenous) == set(net.exo), "roles", endo=net.model.endogenous)
        if net.cast: check(not net.model.has_deterministic, "functions were not converted")
        check_net(net, net.model.to_multinomial(), "to_multinomial"); check(not net.model.to_multinomial().has_deterministic, "functions were not converted")
        check(set(net.model.to_multinomial().endogenous) == set(net.endo), "roles after conversion")
        b = net.model.to_bnet(); check(type(b) is BayesianNetwork, "kind of model"); check_net(net, b, "to_bnet")
        check(net.model.has_deterministic == any(isinstance(net.model.factors[x], DeterministicFactor) for x in net.endo), "has_deterministic")

def invalid(rng, log):
    net = rnd_net(rng, n=rng.choice([2, 3, 4]), mincard=2)
    M = net.model; v = rng.choice(list(net.dom)); pa = list(net.dag.predecessors(v)); others = [w for w in net.dom if w != v and w not in pa]
    k = rng.choice(["cycle", "left", "right_missing", "right_extra", "domain", "none_disc", "undirected", "swap", "list_left", "wrongtype"])
    log.update(net=net, var=v, kind=k)
    s = snapshot_model(M)
    fam = {x: net.dom[x] for x in [v] + pa}
    if k == "cycle":
        vs = list(net.dom); g = nx.DiGraph([(vs[0], vs[1]), (vs[1], vs[0])])
        raises(lambda: BayesianNetwork(g), "a cyclic graph was accepted", ValueError); raises(lambda: StructuralCausalModel(nx.DiGraph([("A", "A")])), "a loop was accepted", ValueError); return
    if k == "undirected": raises(lambda: BayesianNetwork(nx.Graph([("A", "B")])), "an undirected graph was accepted", ValueError); return
    if k == "wrongtype": raises(lambda: BayesianNetwork(net.dag, 5), "wrong tables were accepted"); raises(lambda: M.set_factor(v, "x"), "a table of another kind was accepted"); return
    if k == "left":
        if not pa: return
        f = MultinomialFactor(fam, raw_table(rng, fam).flat(), left_vars=[pa[0]])
    elif k == "right_missing":
        if not pa: return
        d = {x: net.dom[x] for x in [v] + pa[1:]}; f = MultinomialFactor(d, raw_table(rng, d).flat(), left_vars=[v])
    elif k == "right_extra":
        if not others: return
        d = {**fam, others[0]: net.dom[others[0]]}; f = MultinomialFactor(d, raw_table(rng, d).flat(), left_vars=[v])
    elif k == "domain":
        w = rng.choice(list(fam)); d = dict(fam)
        d[w] = list(range(50, 50 + len(fam[w]))) if rng.random() < .5 else (fam[w][:-1] if rng.random() < .5 else fam[w] + [fam[w][0] + 1000 if not isinstance(fam[w][0], (str, bool)) else ("zzz" if isinstance(fam[w][0], str) else 7)])
        if len({type(x) for x in d[w]}) != 1: return
        f = MultinomialFactor(d, raw_table(rng, d).flat(), left_vars=[v])
        if not isinstance(net, Scm) and (w != v or list(net.dag.successors(v))):
            fac = {x: f if x == v else M.factors[x] for x in shuffled(rng, list(net.dom))}
            raises(lambda: BayesianNetwork(net.dag, fac), "tables with different domains of a variable were accepted", ValueError)
            log["order"] = list(fac); raises(lambda: BayesianNetwork(net.dag, list(fac.values())), "tables with different domains of a variable were accepted (as a list)", ValueError)
    elif k == "swap":
        w = rng.choice([x for x in net.dom if x != v]); f = M.factors[w]
    elif k == "list_left":
        d = {**fam}; f = MultinomialFactor(fam, raw_table(rng, fam).flat())
        if not pa: return
        raises(lambda: BayesianNetwork(net.dag, [f]), "a joint table was accepted", ValueError)
    else: return
    raises(lambda: M.set_factor(v, f), f"an inconsistent table was accepted ({k})", ValueError)
    check(snapshot_model(M) == s, "a rejected table changed the model")

def scm_invalid(rng, log):
    m = rnd_scm(rng, mincard=2)
    x = rng.choice(m.endo); d = m.cpt[x].dom
    log.update(scm=m, var=x)
    raw = raw_cpt(rng, d, x, zeros=False)
    f = factor(rng, raw, "numpy", left=[x])
    raises(lambda: m.model.set_factor(x, f), "a non-degenerate equation was accepted", ValueError)
    fac = dict(m.factors); fac[x] = f
    raises(lambda: StructuralCausalModel(m.dag, fac), "a non-degenerate equation was accepted at construction", ValueError)
    u = rng.choice(m.exo)
    m.model.set_factor(u, factor(rng, raw_cpt(rng, {u: m.dom[u]}, u, zeros=False), "numpy"))
    c = m.model.intervention  # still usable

def rename(rng, log):
    net = rnd_net(rng) if rng.random() < .5 else rnd_scm(rng, every_exo=rng.random() < .8)
    mp = {v: v + "_n" for v in rng.sample(list(net.dom), rng.randint(0, len(net.dom)))}
    if rng.random() < .2: mp["NotThere"] = "q"
    if len(net.dom) > 1 and rng.random() < .15:
        a, b = rng.sample(list(net.dom), 2); mp = {a: b, b: a}
    log.update(net=net, mapping=mp)
    R = net.model.rename_vars(mp)
    r = lambda v: mp.get(v, v)
    new = Net(); new.dom = {r(v): d for v, d in net.dom.items()}; new.dag = nx.DiGraph(); new.dag.add_nodes_from(map(r, net.dag.nodes)); new.dag.add_edges_from((r(x), r(y)) for x, y in net.dag.edges)
    new.cpt = {r(v): Raw({r(w): d for w, d in c.dom.items()}, c.tab) for v, c in net.cpt.items()}
    check_net(new, R, "renaming")
    if isinstance(net, Scm): check(set(R.endogenous) == set(map(r, net.endo)) and set(R.exogenous) == set(map(r, net.exo)), "roles after renaming", endo=R.endogenous)
    check(type(R) is type(net.model), "kind of model")
    check_net(net, net.model, "original after renaming")

def submodel(rng, log):
    net = rnd_net(rng) if rng.random() < .6 else rnd_scm(rng)
    vs = list(net.dom)
    # ancestral sets, for which the tables fit
    S = set(rng.sample(vs, rng.randint(1, len(vs))))
    ch = True
    while ch:
        ch = False
        for x, y in net.dag.edges:
            if y in S and x not in S: S.add(x); ch = True
    S = shuffled(rng, sorted(S))
    log.update(net=net, nodes=S)
    M = net.model.submodel(S)
    new = Net(); new.dom = {v: net.dom[v] for v in net.dom if v in S}; new.dag = net.dag.subgraph(S); new.cpt = {v: net.cpt[v] for v in S}
    check_net(new, M, "submodel")
    if isinstance(net, Scm): check(set(M.endogenous) == set(net.endo) & set(S) and set(M.exogenous) == set(net.exo) & set(S), "roles in the submodel", endo=M.endogenous)

def copy(rng, log):
    net = rnd_net(rng) if rng.random() < .5 else rnd_scm(rng)
    log.update(net=net)
    c = net.model.copy()
    check(type(c) is type(net.model) and c is not net.model, "kind of copy"); check_net(net, c, "copy")
    if isinstance(net, Scm): check(set(c.endogenous) == set(net.endo), "roles of the copy")
    v = rng.choice([w for w in net.dom if not list(net.dag.predecessors(w))])
    f = factor(rng, raw_cpt(rng, {v: net.dom[v]}, v, zeros=False), net.vtype)
    c.set_factor(v, f)
    check(c.factors[v] is f, "setting a table of the copy")
    check_net(net, net.model, "original after changing the copy")

def probs(rng, log):
    net = rnd_net(rng)
    obs = [{v: rng.choice(d) for v, d in net.dom.items()} for _ in range(rng.randint(1, 4))]
    log.update(net=net, observations=obs)
    def p(o):
        x = 1.0
        for c in net.cpt.values(): x *= c.at(o)
        return x
    g = net.model.prob(obs)
    check(len(g) == len(obs) and all(close(a, p(o)) for a, o in zip(g, obs)), "probability of complete observations", got=g, expected=[p(o) for o in obs])
    pos = [dict(zip(net.dom, s)) for s in rng.sample(list(net.joint()), min(3, len(net.joint())))]
    l = net.model.log_prob(pos)
    check(len(l) == len(pos) and all(close(a, math.log(p(o)), 1e-9) for a, o in zip(l, pos)), "log-probability", got=l)
    vs = rng.sample(list(net.dom), rng.randint(1, len(net.dom)))
    l = net.model.log_prob(pos, vs)
    check(all(close(a, sum(math.log(net.cpt[v].at(o)) for v in vs)) for a, o in zip(l, pos)), "log-probability of some tables", got=l)

def strings(rng, log):
    net = rnd_net(rng) if rng.random() < .6 else rnd_scm(rng)
    order = shuffled(rng, list(net.dag.nodes))
    s = "".join(f"[{v}" + ("|" + ":".join(net.dag.predecessors(v)) if list(net.dag.predecessors(v)) else "") + "]" for v in order)
    log.update(net=net, string=s)
    cls = type(net.model)
    M = cls(s, net.factors)
    check_net(net, M, "model from a string")
    t = M.get_dag_str()
    parse = {}
    for part in t[1:-1].split("]["):
        v, _, pa = part.partition("|"); parse[v] = set(pa.split(":")) if pa else set()
    check(parse == {v: set(net.dag.predecessors(v)) for v in net.dag.nodes}, "textual graph", got=t)
    if isinstance(net, Scm):
        check(set(M.endogenous) == set(net.endo), "roles from a string", endo=M.endogenous)
        N = StructuralCausalModel.from_model(net.model.to_bnet()); check_net(net, N, "from_model")
    # incremental construction
    N = cls(net.dag)
    for v in order: N.set_factor(v, net.factors[v])
    check_net(net, N, "incremental construction")

FAMILIES = dict(valid=valid, invalid=invalid, rename=rename, submodel=submodel, copy=copy, probs=probs, strings=strings, scm_invalid=scm_invalid)
