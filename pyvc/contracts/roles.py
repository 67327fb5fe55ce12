"""Roles of the variables of a causal model (C14) and its components (C13)."""
import ast
from .base import *
from .models import *
CM = "bcause.models.cmodel:DiscreteCausalDAGModel"
def member(it, v, x):
    "formula: x is in the list or set"
    return it.in_set(v, x) if isinstance(v, St) else it.member_f(Lst(it.E, it.iter_segs(v)), x)
def exo_arcs(it, m):
    "the arcs that leave exogenous variables"
    g = mgraph(m).copy(); endo = m.attrs["_endogenous"].snap(); return lambda x, y: And(g.edge(x, y), g.isnode(it, x), g.isnode(it, y), Not(it.member_f(endo, x)))
def reader(name, props, arg=None, needs=None, use_=None):
    def deco(spec):
        @register
        class Reader(Contract):
            __doc__ = spec.__doc__
            key = CM + "." + name
            def args(self, it, case):
                E = it.E; m = sym_model(it, "scm"); v = None
                if arg: v = E.fresh("v", U); E.require(mgraph(m).isnode(it, v)); needs and E.require(needs(it, m, v))
                return dict(m=m), (m, v, snap_model(m))
            def call(self, it, fn, a):
                f = it.getattr(a[0]["m"], name); v = a[1][1]
                return it.call(f, [S(v, "name")], {}) if arg else f
            def post(self, it, case, a, out):
                m, v, s0 = a[1]; n = f"{name}: "
                if no_exc(it, out, n + "no exception"): return
                it.E.record(n + "the model stays", same_snap(m, s0)); spec(it, m, v, out.val, n)
            inline = use_ is None      # short: callers execute the body
            def use(self, it, p): return use_(it, p)
        Reader.props = props
        return spec
    return deco
endo_f = lambda it, m, x: it.member_f(m.attrs["_endogenous"], x)
def exactly(it, r, n, f, what="exactly these variables"):
    if not isinstance(r, (St, Lst)): raise Unsupported(f"{n}{r!r}")
    x = it.E.fresh("x", U); it.E.prove(member(it, r, x) == f(x), n + what)
def truth(it, r, n, f): it.E.prove(zb(it.truth_f(r)) == f, n + "as the roles say")

@reader("endogenous", ("C14",))
def _(it, m, v, r, n):
    "the endogenous variables"
    exactly(it, r, n, lambda x: endo_f(it, m, x))
@reader("exogenous", ("C14",))
def _(it, m, v, r, n):
    "the other variables"
    exactly(it, r, n, lambda x: And(mgraph(m).isnode(it, x), Not(endo_f(it, m, x))))
@reader("is_endogenous", ("C14",), True)
def _(it, m, v, r, n):
    "whether a variable is endogenous"
    truth(it, r, n, endo_f(it, m, v))
@reader("is_exogenous", ("C14",), True)
def _(it, m, v, r, n):
    "whether a variable is exogenous"
    truth(it, r, n, Not(endo_f(it, m, v)))
def rel(kind, endo):
    def spec(it, m, v, r, n):
        "the parents or children of a variable with one role"
        g = mgraph(m); exactly(it, r, n, lambda x: And(g.isnode(it, x), g.edge(x, v) if kind == "parents" else g.edge(v, x), endo_f(it, m, x) if endo else Not(endo_f(it, m, x))))
    return spec
for kind in ("parents", "children"):
    for nm, endo in ((f"get_edogenous_{kind}", True), (f"get_exogenous_{kind}", False)): reader(nm, ("C14",), True)(rel(kind, endo))
def same_arcs(it, r, n, f):
    x, y = it.E.fresh("x", U), it.E.fresh("y", U); it.E.prove(And(r.edge(x, y), r.isnode(it, x), r.isnode(it, y)) == f(x, y), n + "exactly these arcs")
def is_graph(it, r, n): 
    ok = isinstance(r, lib.GraphV) and not getattr(r, "und", False); it.E.record(n + "returns a directed graph", ok); return ok
@reader("endo_graph", ("C13", "C14"))
def _(it, m, v, r, n):
    "the endogenous variables and the arcs among them"
    if not is_graph(it, r, n): return
    g = mgraph(m); exactly(it, r.nodes, n, lambda x: endo_f(it, m, x)); same_arcs(it, r, n, lambda x, y: And(g.edge(x, y), endo_f(it, m, x), endo_f(it, m, y)))
@reader("exo_graph", ("C13", "C14"), use_=lambda it, p: use_exo_graph(it, p))
def _(it, m, v, r, n):
    "the arcs that leave exogenous variables, and their ends"
    if not is_graph(it, r, n): return
    e = exo_arcs(it, m); x, y = it.E.fresh("x", U), it.E.fresh("y", U); same_arcs(it, r, n, e)
    z = z3.Const("zz", U); it.E.prove(Implies(e(x, y), And(r.isnode(it, x), r.isnode(it, y))), n + "the ends of these arcs are nodes"); it.E.prove(Implies(r.isnode(it, x), z3.Exists([z], Or(e(x, z), e(z, x)))), n + "no other nodes")
def joined_spec(it, m):
    """joined with through exogenous variables: by a path of arcs that leave exogenous variables, in either direction"""
    g = exo_graph_of(it, m); h = lib.GraphV(it.E, g.nodes, lambda x, y: Or(g.edge(x, y), g.edge(y, x)))
    return lambda v, x: lib.joined_f(it, h, v, x), lambda x: h.isnode(it, x)
def exo_graph_of(it, m):
    "the graph of the contract of exo_graph"
    if not hasattr(m, "exo_g"):
        e = exo_arcs(it, m); end = lib.endpoints(it, e); m.exo_g = lib.GraphV(it.E, lib.filter_nodes(it, mgraph(m).nodes, lambda x: end(x)), e)
    return m.exo_g
def use_exo_graph(it, p):
    m = p["self"]
    if "_endogenous" not in m.attrs or mgraph(m) is not getattr(m, "graph0", mgraph(m)): raise Unsupported("graph of the exogenous variables")
    return exo_graph_of(it, m).copy()
needs_arc = lambda it, m, v: (lambda z: z3.Exists([z], Or(exo_arcs(it, m)(v, z), exo_arcs(it, m)(z, v))))(z3.Const("na", U))
def comp(role):
    def spec(it, m, v, r, n):
        "the variables (of one role) joined with a variable through exogenous variables"
        j, node = joined_spec(it, m); exactly(it, r, n, lambda x: And(node(x), j(v, x), *([] if role is None else [endo_f(it, m, x)] if role else [Not(endo_f(it, m, x))])))
    return spec
for nm, role in (("get_ccomponent", None), ("get_endo_ccomponent", True), ("get_exo_ccomponent", False)): reader(nm, ("C13",), True, needs_arc)(comp(role))
def comps(role):
    def spec(it, m, v, r, n):
        "the components (their variables of one role), each once"
        E = it.E; j, node = joined_spec(it, m); r = Lst(E, it.iter_segs(r))
        if len(r.segs) != 1 or not isinstance(r.segs[0], Gen): raise Unsupported("components")
        s = r.segs[0]; c, x = E.fresh("c", s.base.sort), E.fresh("x", U); E.require(s.has(c)); el = s.elem(c)
        if not isinstance(el, St): raise Unsupported("components")
        E.prove(it.in_set(el, x) == And(node(x), j(c, x), *([] if role is None else [endo_f(it, m, x)] if role else [Not(endo_f(it, m, x))])), n + "each is the class of a variable")
    return spec
for nm, role in (("ccomponents", None), ("endo_ccomponents", True), ("exo_ccomponents", False)): reader(nm, ("C13",))(comps(role))

# ---- factorisation of the observational distribution
from .elimination import PI, VE
INFO = "bcause.models.info:"
class Answer:
    "answer of a query to an inference object (contract of ProbabilisticInference.query)"
    def __init__(self, inf, target, conditioning, evidence): self.inf, self.target, self.conditioning, self.evidence = inf, target, conditioning, evidence
def fresh_choice(it): return it.E.decide(it.E.fresh("round", B))
def q_round(it, s, env, bind):
    "one arbitrary round of a loop; ends the path"
    from ..interp import ContinueSig, BreakSig, Env
    lg = Log(it.E.births); it.E.logs.append(lg)
    try: bind(); it.exec_block(s.body, env)
    except ContinueSig: pass
    except BreakSig: raise Unsupported("break")
    finally: it.E.logs.remove(lg)
    if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop changes something else")
def q_loops(it, s, env, itv):
    from .ordering import poison
    E = it.E; q = it.qg; level = q["level"]
    if not isinstance(s, ast.For) or level > 2: raise Unsupported("loop")
    (q_components, q_members, q_earlier)[level](it, s, env, itv, q)
    if level: poison(s, env); it.exec_block(s.orelse, env); return
    poison(s, env)
    if len(q["graphs"]) > 1: raise Unsupported("several graphs")
    g = q["g"]; old = g.edge; arcs = q["arcs"](); g.set(edge=lambda x, y: Or(old(x, y), arcs(x, y))); q["done"] = g; it.exec_block(s.orelse, env)
def one_gen(it, itv, what):
    segs = it.iter_segs(itv)
    if len(segs) != 1 or not isinstance(segs[0], Gen): raise Unsupported(what)
    return segs[0]
def q_components(it, s, env, itv, q):
    E = it.E; seg = one_gen(it, itv, "loop over components"); m = q["m"]
    if seg.base.name != "components" or not z3.is_true(z3.simplify(seg.g)): raise Unsupported("loop over components")
    c = E.fresh("comp", seg.base.sort); x = E.fresh("x", U)
    gs = {id(v): v for v in (env.get(k) for k in names_in(s, env)) if isinstance(v, lib.GraphV)}.values()
    if len(gs) != 1: raise Unsupported("graph of the factorisation not identified")
    q["g"] = next(iter(gs))
    if fresh_choice(it):
        el = seg.elem(c); j, node = joined_spec(it, m)
        if not isinstance(el, St): raise Unsupported("loop over components")
        if E.valid(Implies(seg.has(c), it.in_set(el, x) == And(node(x), j(c, x), endo_f(it, m, x)))) is not True: raise Unsupported("loop over other components")
        f = E.fresh_fn("member", U, B); y = z3.Const("qz", U); E.fact(z3.ForAll([y], Implies(f(y), And(mgraph(m).isnode(it, y), endo_f(it, m, y))), patterns=[f(y)]))
        el = St(E, U, lambda y: f(y), None, kind="name")       # any set of endogenous variables
        q["in"] = f; q["level"] = 1; q_round(it, s, env, lambda: it.bind_target(s.target, el, env)); 
        E.record("q-graph: the members of each component are visited", q["level"] == 1 and q.get("visited") is True); raise PathEnd()
def names_in(s, env):
    from ..interp import loads
    from .elimination import env_has
    return [k for k in sorted(loads(s)) if env_has(env, k)]
def q_rank(it, q):
    if len(q["ranks"]) != 1: raise Unsupported("several topological orders")
    return q["ranks"][0][1]
def wanted(it, q, p, x):
    "p is an earlier member of the component of x, or an earlier endogenous parent of one of its members"
    m = q["m"]; g = mgraph(m); y = z3.Const("qy", U); r = q_rank(it, q)
    return And(q["in"](x), g.isnode(it, p), endo_f(it, m, p), r(p) < r(x), Or(q["in"](p), z3.Exists([y], And(q["in"](y), g.edge(p, y)))))
def q_members(it, s, env, itv, q):
    E = it.E; seg = one_gen(it, itv, "loop over the members"); a = E.fresh("w", U)
    if seg.base.sort != U: raise Unsupported("loop over the members")
    E.prove(Implies(q["in"](a), seg.has(a)), "q-graph: every member of the component is visited"); q["visited"] = True
    if fresh_choice(it):
        c = E.fresh("x", U); E.require(seg.has(c)); q["x"] = c; q["level"] = 2; q["inner"] = False
        q_round(it, s, env, lambda: it.bind_target(s.target, seg.elem(c), env)); E.record("q-graph: earlier variables are visited", q["inner"]); raise PathEnd()
def q_earlier(it, s, env, itv, q):
    E = it.E; x = q["x"]; segs = it.iter_segs(itv); L = Lst(E, segs); p = E.fresh("p", U); q["inner"] = True; n = "q-graph: "
    E.prove(Implies(wanted(it, q, p, x), it.member_f(L, p)), n + "every earlier variable of the component and every earlier parent is visited")
    if fresh_choice(it):
        E.require(it.member_f(L, p)); q["adds"] = []; q["level"] = 3; q_round(it, s, env, lambda: it.bind_target(s.target, S(p, "name"), env))
        for a, b in q["adds"]: E.prove(wanted(it, q, a, b), n + "arcs only from earlier variables of the component or earlier parents of its members")
        E.prove(Implies(wanted(it, q, p, x), Or(*[And(a == p, b == x) for a, b in q["adds"]])), n + "each such arc is added"); raise PathEnd()
@register
class QGraph(Contract):
    """the endogenous graph, with an arc to each variable from those that precede it (in a topological order of that graph) among the members
    of its component and their endogenous parents"""
    key = INFO + "get_qgraph"; props = ("C13",); loops = {(INFO + "get_qgraph", i): q_loops for i in range(3)}
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); q = it.qg = dict(m=m, ranks=[], level=0, graphs=[]); 
        it.topo = lambda g, r: q["ranks"].append((g, r))
        def add(g, a, b):
            if q["level"] != 3 or g is not q["g"]: raise Unsupported("add_edge")
            q["adds"].append((a, b))
        it.on_add = add; f = E.fresh_fn("q_arc", U, U, B); q["arcs"] = lambda: lambda x, y: f(x, y); q["f"] = f; return dict(model=m), (m, snap_model(m), q)
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; m, s0, q = a[1]; n = "q-graph: "; x, y = E.fresh("x", U), E.fresh("y", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val; E.record(n + "the model stays", same_snap(m, s0))
        if not is_graph(it, r, n): return
        g = mgraph(m); exactly(it, r.nodes, n, lambda x: endo_f(it, m, x)); rk = q_rank(it, q); e = lambda x, y: And(g.edge(x, y), g.isnode(it, x), endo_f(it, m, x), endo_f(it, m, y))
        E.prove(Implies(e(x, y), rk(x) < rk(y)), n + "the order is a topological order of the endogenous graph")
        E.prove(Implies(And(endo_f(it, m, x), endo_f(it, m, y)), r.edge(x, y) == Or(e(x, y), q["f"](x, y))), n + "the arcs of the endogenous graph and those added")
    def use(self, it, p):
        m = p["model"]
        if not hasattr(m, "qg"):
            E = it.E; f = E.fresh_fn("q_arc", U, U, B); g = mgraph(m); endo = m.attrs["_endogenous"].snap()
            m.qg = lib.GraphV(E, lib.filter_nodes(it, g.nodes, lambda x: it.member_f(endo, x)), lambda x, y: f(x, y))
        return m.qg.copy()
@register
class QFactors(Contract):
    "one table per endogenous variable of the component: given its predecessors in the graph of the factorisation, asked on the model itself"
    key = INFO + "get_qfactors"; props = ("C13",)
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); v = E.fresh("v", U); E.require(mgraph(m).isnode(it, v)); E.require(needs_arc(it, m, v)); return dict(model=m, v=S(v, "name")), (m, v, snap_model(m))
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; m, v, s0 = a[1]; n = "tables of a component: "; x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val; E.record(n + "the model stays", same_snap(m, s0))
        if not isinstance(r, Dct): raise Unsupported("tables of a component")
        j, node = joined_spec(it, m); E.prove(zb(it.has_key(r, S(x, "name"))) == And(node(x), j(v, x), endo_f(it, m, x)), n + "one for each endogenous variable of the component")
        q = QGraph.use(it, dict(model=m))
        def entry():
            E.require(zb(it.has_key(r, S(x, "name")))); t = it.dget(r, S(x, "name")); y = E.fresh("y", U)
            if not isinstance(t, Answer): raise Unsupported("table that is not the answer to one query")
            E.record(n + "asked on the model", isinstance(t.inf, Obj) and t.inf.attrs.get("_model") is m)
            E.prove(it.member_f(t.target, y) == (y == x), n + "its variable is the target"); E.prove(t.conditioning is not None and member(it, t.conditioning, y) == And(q.isnode(it, y), q.edge(y, x)), n + "given the predecessors in the graph of the factorisation")
            E.record(n + "without evidence", t.evidence is None or isinstance(t.evidence, Dct) and not t.evidence.segs)
        E.explore(entry)
    def use(self, it, p): raise Unsupported("tables of a component")
