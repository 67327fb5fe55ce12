"""C18 UAI round trips."""
import tempfile, shutil
from .common import *
COUNTS = dict(bn=110, scm=70, given=60, errors=15)
_dir = None
def path(ext="uai"):
    global _dir
    if _dir is None:
        import atexit
        _dir = tempfile.mkdtemp(prefix="verif_c18_"); atexit.register(shutil.rmtree, _dir, True)
    return os.path.join(_dir, "m." + ext)

def tiny(rng, net):
    """some very small and very large ratios in the tables"""
    for v in net.dag.nodes:
        if rng.random() < .4:
            c = net.cpt[v]; d = c.dom
            if len(d[v]) < 2: continue
            for a in assignments({x: s for x, s in d.items() if x != v}):
                if rng.random() < .5:
                    e = rng.choice([1e-5, 3.25e-7, 1e-12, 2.5e-20, 1e-100])
                    for i, s in enumerate(d[v]): c.tab[key(d, {**a, v: s})] = e if i == 0 else (1 - e if i == 1 else 0.0)
            net.factors[v] = factor(rng, c, net.vtype, left=[v])
    net.model = BayesianNetwork(net.dag, net.factors)

def same_table(f, c, ren, idx, what, tol=0.0):
    """f (read) equals the raw table c after renaming the variables and states by position"""
    check(set(f.variables) == {ren[x] for x in c.dom}, f"{what}: variables", got=f.variables)
    for a in assignments(c.dom):
        g = num(f.get_value(**{ren[x]: idx[x][a[x]] for x in c.dom}))
        e = c.at(a)
        check(abs(g - e) <= 1e-12 * abs(e), f"{what}: value", at=a, got=g, expected=e)

def bn(rng, log):
    net = rnd_net(rng, kinds=["str", "range", "ints", "strmix"])
    if rng.random() < .5: tiny(rng, net)
    order = shuffled(rng, list(net.dom)) if rng.random() < .7 else None
    log.update(net=net, order=order, cpt={v: c.flat() for v, c in net.cpt.items()}, vtype=net.vtype)
    p = path()
    kw = {} if order is None else dict(var_order=list(order))
    r = net.model.save(p, **kw)
    check(os.path.abspath(str(r)) == os.path.abspath(p), "path returned by save", got=r)
    M = BayesianNetwork.read(p)
    order = order or list(net.model.variables)
    ren = {v: f"V{i}" for i, v in enumerate(order)}; idx = {v: {s: i for i, s in enumerate(net.dom[v])} for v in net.dom}
    check(isinstance(M, BayesianNetwork) and set(M.graph.nodes) == set(ren.values()), "variables", got=list(M.graph.nodes))
    check(set(M.graph.edges) == {(ren[x], ren[y]) for x, y in net.dag.edges}, "arcs", got=list(M.graph.edges))
    for v in net.dom:
        check(list(M.domains[ren[v]]) == list(range(len(net.dom[v]))), "states", got=M.domains[ren[v]])
        f = M.factors[ren[v]]
        check(list(f.left_vars) == [ren[v]], "left variable", got=f.left_vars)
        same_table(f, net.cpt[v], ren, idx, f"table of {v}")
    check(list(net.model.variables) == list(net.dag.nodes), "the model changed")

def scm(rng, log):
    m = rnd_scm(rng, every_exo=rng.random() < .7, kinds=["str", "range", "ints", "range1", "strmix"])
    order = shuffled(rng, list(m.dom)) if rng.random() < .6 else None
    log.update(scm=m, order=order)
    p = path()
    kw = {} if order is None else dict(var_order=list(order))
    m.model.save(p, **kw)
    M = StructuralCausalModel.read(p)
    order = order or list(m.model.endogenous) + list(m.model.exogenous)
    ren = {v: f"V{i}" for i, v in enumerate(order)}; idx = {v: {s: i for i, s in enumerate(m.dom[v])} for v in m.dom}
    check(isinstance(M, StructuralCausalModel) and set(M.graph.nodes) == set(ren.values()) and set(M.graph.edges) == {(ren[x], ren[y]) for x, y in m.dag.edges}, "graph", got=list(M.graph.edges))
    check({*M.endogenous} == {ren[x] for x in m.endo} and {*M.exogenous} == {ren[u] for u in m.exo}, "roles", got=M.endogenous)
    for v in m.dom:
        f = M.factors[ren[v]]
        if isinstance(f, DeterministicFactor): f = f.to_multinomial()
        check(list(M.domains[ren[v]]) == list(range(len(m.dom[v]))), "states", got=M.domains[ren[v]])
        same_table(f, m.cpt[v], ren, idx, f"table of {v}")

def given(rng, log):
    """files written by hand: any layout of white space, any number format"""
    net = rnd_net(rng, kinds=["range"])
    vs = list(net.dom); pos = {v: i for i, v in enumerate(vs)}
    sep = lambda: rng.choice([" ", "  ", "\n", "\t", " \n"])
    fmt = lambda x: rng.choice([repr(float(x)), "%.17g" % x, "%.17e" % x, "%.20f" % x if x == 0 or x > 1e-3 else repr(float(x))])
    out = "BAYES\n" + f"{len(vs)}" + "\n" + " ".join(str(len(net.dom[v])) for v in vs) + "\n" + f"{len(vs)}\n"
    pas = {}
    for v in vs:
        pa = shuffled(rng, list(net.dag.predecessors(v))); pas[v] = pa
        out += f"{len(pa) + 1} " + " ".join(str(pos[x]) for x in pa + [v]) + "\n"
    for v in vs:
        d = {x: net.dom[x] for x in pas[v] + [v]}
        vals = [net.cpt[v].at(a) for a in assignments(d)]
        out += "\n" + str(len(vals)) + "\n" + "".join(fmt(x) + sep() for x in vals)
    log.update(text=out)
    p = path(); open(p, "w").write(out)
    kw = dict(var_prefix=rng.choice(["V", "X", "N"]), init_var_id=rng.choice([0, 1, 5]), init_var_state=rng.choice([0, 1]))
    from bcause.readwrite import bnread
    if rng.random() < .7: M = bnread.from_uai(p, **kw)
    else: M = BayesianNetwork.read(p); kw = dict(var_prefix="V", init_var_id=0, init_var_state=0)
    ren = {v: f"{kw['var_prefix']}{i + kw['init_var_id']}" for v, i in pos.items()}
    check(set(M.variables) == set(ren.values()), "variables", got=M.variables, expected=ren)
    check(set(M.graph.edges) == {(ren[x], ren[y]) for x, y in net.dag.edges}, "arcs", got=list(M.graph.edges))
    idx = {v: {s: i + kw["init_var_state"] for i, s in enumerate(net.dom[v])} for v in vs}
    # the table of a node is laid out as the file lists its parents (last variable fastest)
    for v in vs: same_table(M.factors[ren[v]], net.cpt[v], ren, idx, f"table of {v}")

def errors(rng, log):
    net = rnd_net(rng, n=rng.choice([2, 3])); vs = list(net.dom); p = path()
    log.update(net=net)
    raises(lambda: net.model.save(p, var_order=vs[:-1]), "an incomplete variable order was accepted", ValueError)
    raises(lambda: net.model.save(p, var_order=vs + ["other"]), "a wrong variable order was accepted", ValueError)
    raises(lambda: net.model.save(path("txt")), "an unknown format was accepted", ValueError)
    raises(lambda: BayesianNetwork.read(path("txt")), "an unknown format was accepted", ValueError)
    open(p, "w").write("MARKOV\n1\n2\n1\n1 0\n2 .5 .5\n")
    raises(lambda: BayesianNetwork.read(p), "a file with another label was accepted", ValueError)

FAMILIES = dict(bn=bn, scm=scm, given=given, errors=errors)
