"""C19 pgmpy, BIF and XMLBIF."""
import tempfile, shutil
from .common import *
from bcause.conversion import pgmpy as conv
import pgmpy.models as pm, pgmpy.factors.discrete as pfd
COUNTS = dict(pgmpy=25, frompgmpy=16, bif=4, xmlbif=8, scm=3)
import joblib
THREADS = lambda: joblib.parallel_backend('threading')   # pgmpy's BIF reader would start one process per core
_dir = None
def path(ext):
    global _dir
    if _dir is None:
        import atexit
        _dir = tempfile.mkdtemp(prefix="verif_c19_"); atexit.register(shutil.rmtree, _dir, True)
    return os.path.join(_dir, "m." + ext)
KINDS = ["str"]

def net_(rng, **k):
    return rnd_net(rng, kinds=KINDS, mincard=2, vs=rng.sample(["A", "B", "C", "D", "E", "X", "Y", "V1", "V10", "AB", "Zz", "left"], k.pop("n", None) or rng.choice([1, 2, 3, 4, 5])), **k)

def same(M, net, tol=1e-12, what=""):
    check(isinstance(M, BayesianNetwork) and set(M.graph.nodes) == set(net.dom), f"{what} variables", got=list(M.graph.nodes), expected=list(net.dom))
    check(set(M.graph.edges) == set(net.dag.edges), f"{what} arcs", got=list(M.graph.edges))
    for v in net.dom:
        f = M.factors[v]
        check(list(f.left_vars) == [v] and set(f.right_vars) == set(net.dag.predecessors(v)), f"{what} sides of the table of {v}")
        for x in f.variables: check(set(f.domain[x]) == set(net.dom[x]) and len(f.domain[x]) == len(net.dom[x]), f"{what} states of {x}", got=f.domain[x], expected=net.dom[x])
        for a in assignments(net.cpt[v].dom):
            g = f.get_value(**a)
            check(close(g, net.cpt[v].at(a), tol), f"{what} table of {v}", at=a, got=g, expected=net.cpt[v].at(a))

def pgmpy(rng, log):
    net = net_(rng); log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()})
    P = conv.toPgmpyBNet(net.model)
    check(set(P.nodes) == set(net.dom) and set(P.edges) == set(net.dag.edges), "graph in pgmpy")
    check(len(P.cpds) == len(net.dom), "number of tables in pgmpy")
    for c in P.cpds:
        v = c.variable
        for a in assignments(net.cpt[v].dom):
            g = c.get_value(**a)
            check(close(g, net.cpt[v].at(a), 1e-12), f"pgmpy table of {v}", at=a, got=g, expected=net.cpt[v].at(a))
    vt = rng.choice(["numpy", "list", "treedict", "numpy1d", None])
    M = conv.toBCauseBNet(P, vt) if vt else conv.toBCauseBNet(P)
    same(M, net, what="back from pgmpy:")
    if vt: check(all(f.vtype == vt for f in M.factors.values()), "storage asked for", got=[f.vtype for f in M.factors.values()])

def frompgmpy(rng, log):
    net = net_(rng); log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()})
    P = pm.BayesianNetwork(); P.add_nodes_from(list(net.dag.nodes)); P.add_edges_from(list(net.dag.edges))
    for v in net.dag.nodes:
        ev = shuffled(rng, list(net.dag.predecessors(v)))
        sn = {x: list(net.dom[x]) for x in shuffled(rng, [v] + ev)}
        cols = list(assignments({x: net.dom[x] for x in ev}))
        vals = [[net.cpt[v].at({**a, v: s}) for a in cols] for s in net.dom[v]]
        kw = dict(evidence=ev, evidence_card=[len(net.dom[x]) for x in ev]) if ev else {}
        P.add_cpds(pfd.TabularCPD(v, len(net.dom[v]), vals, state_names=sn, **kw))
    same(conv.toBCauseBNet(P), net, what="from pgmpy:")

def bif(rng, log):
    net = net_(rng, n=rng.choice([1, 2, 3, 4])); log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()})
    p = path("bif"); net.model.save(p)
    with THREADS(): same(BayesianNetwork.read(p), net, 1e-6, "BIF:")

def xmlbif(rng, log):
    net = net_(rng, n=rng.choice([1, 2, 3, 4])); log.update(net=net, cpt={v: c.flat() for v, c in net.cpt.items()})
    p = path("xmlbif"); net.model.save(p); same(BayesianNetwork.read(p), net, 1e-6, "XMLBIF:")

def scm(rng, log):
    m = rnd_scm(rng, kinds=KINDS, n_endo=rng.choice([1, 2, 3]), vtype="numpy"); m.model = m.model.to_multinomial(); log.update(scm=m)
    ext = rng.choice(["bif", "xmlbif"]); p = path(ext); m.model.save(p)
    with THREADS(): same(BayesianNetwork.read(p), m, 1e-6, ext)

FAMILIES = dict(pgmpy=pgmpy, frompgmpy=frompgmpy, bif=bif, xmlbif=xmlbif, scm=scm)
