"""Graph utilities (C23; used by simplification C08, interventions C10, orders C09)."""
from .base import *
M = "bcause.util.graphutils:"

def names_arg(it, name, kind, inp=True):
    b = names_base(it, name)
    return Lst(it.E, [gen_of(it.E, b)], kind, inp=f"argument {name}" if inp else None)
class Edges(Contract):
    props = ("C23", "C10", "C05"); cases = ("list", "keys"); out_of = None
    def args(self, it, case):
        vs = names_arg(it, "vars", case); return {"dag": sym_graph(it), self.par: vs}, vs
    def spec(self, it, g, vs): return lambda x, y: And(g.edge(x, y), Not(it.member_f(vs, y if self.ingoing else x)))
    def post(self, it, case, a, out):
        g, vs = a[0]["dag"], a[1]; n = f"{self.key.split(':')[1]}: "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_graph(it, r, n): return
        prove_graph(it, r, g.nodes, self.spec(it, g, vs), n); it.E.record(n + "returns a new graph", r is not g)
    def use(self, it, p):
        g, vs = p["dag"], Lst(it.E, it.iter_segs(p[self.par]))
        if not isinstance(g, lib.GraphV): raise Unsupported("graph")
        return lib.GraphV(it.E, g.nodes, memo2(self.spec(it, g, vs)))
def memo2(f):
    m = {}
    def g(x, y):
        k = x.get_id(), y.get_id()
        if k not in m: m[k] = z3.simplify(f(x, y))
        return m[k]
    return g
@register
class Ingoing(Edges): key = M + "remove_ingoing_edges"; par = "children_vars"; ingoing = True
@register
class Outgoing(Edges): key = M + "remove_outgoing_edges"; par = "parent_vars"; ingoing = False
@register
class RemoveNodes(Contract):
    key = M + "remove_nodes"; props = ("C23", "C08", "C05"); cases = ("list", "set")
    def args(self, it, case):
        l = names_arg(it, "nodes", "list"); return dict(dag=sym_graph(it), nodes=l if case == "list" else it.to_set(l)), None
    def post(self, it, case, a, out):
        g, l = a[0]["dag"], it.to_set(a[0]["nodes"]); n = "remove_nodes: "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_graph(it, r, n): return
        prove_graph(it, r, lib.filter_nodes(it, g.nodes, lambda x: Not(it.in_set(l, x))), g.edge, n)
    def use(self, it, p):
        g, l = p["dag"], it.to_set(p["nodes"]); return graph_where(it, g, lambda x: Not(it.in_set(l, x)))
@register
class Relevant(Contract):
    key = M + "relevat_vars"; props = ("C23",)
    def args(self, it, case):
        g = sym_graph(it); v = it.E.fresh("v", U); it.E.require(g.isnode(it, v)); return dict(dag=g, v=S(v, "name")), v
    def post(self, it, case, a, out):
        g, v = a[0]["dag"], a[1]; n = "relevat_vars: "; E = it.E
        if no_exc(it, out, n + "no exception"): return
        r = out.val; w = E.fresh("w", U)
        if not isinstance(r, Lst): E.record(n + "returns a list", False); return
        E.prove(it.member_f(r, w) == Or(g.edge(w, v), w == v), n + "the variable and its parents")
        E.record(n + "the variable comes last", bool(r.segs) and isinstance(r.segs[-1], One) and it.E.valid(zb(it.eq(r.segs[-1].v, S(v)))) is True)
    def use(self, it, p):
        g, v = p["dag"], it.uterm(p["v"]); return Lst(it.E, g.nbrs(it, v, "pred").segs + [One(p["v"])], "list")

# ---- barren nodes: those without a descendant (or themselves) in the given set
def reach_fn(it, g, inS, name="reach"):
    "reach(x): x, or a descendant of x, is in the set; defined by recursion along the arcs of an acyclic graph"
    E = it.E; f = E.fresh_fn(name, U, B); x, y = z3.Consts("rx ry", U); wit = E.fresh_fn("next", U, U)
    E.fact(z3.ForAll([x], Implies(And(g.isnode(it, x), inS(x)), f(x)), patterns=[f(x)]))
    E.fact(z3.ForAll([x, y], Implies(And(g.isnode(it, x), g.isnode(it, y), g.edge(x, y), f(y)), f(x)), patterns=[z3.MultiPattern(g.edge(x, y), f(y))] if z3.is_app(g.edge(x, y)) and g.edge(x, y).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    E.fact(z3.ForAll([x], Implies(And(g.isnode(it, x), f(x)), Or(inS(x), And(g.isnode(it, wit(x)), g.edge(x, wit(x)), f(wit(x))))), patterns=[f(x)]))
    g.reaches = getattr(g, "reaches", []) + [f]; return f
class BarrenInv(LoopInv):
    label = "_barren_info loop"
    def __init__(self): self.g0 = self.inS = None
    def roles(self, it, env, names):
        gv = one_of(env, [n for n in names if n in self.assigned], lambda v: isinstance(v, lib.GraphV), "graph")
        cand = [n for n in names if n in self.assigned and isinstance(env.get(n), St) and env.get(n).vals == []]
        if len(cand) != 1: raise Unsupported("loop: set of barren nodes not identified")
        return dict(dag=gv, barren=cand[0])
    def havoc(self, it, vals):
        E = it.E; f = E.fresh_fn("barren", U, B); st = St(E, U, lambda x: f(x), None, kind="name")
        return dict(barren=st, dag=graph_where(it, self.g0, lambda x: Not(f(x))))
    def holds(self, it, vals):
        g0, g, b = self.g0, vals["dag"], vals["barren"]; x, y = z3.Consts("ix iy", U); inb = lambda c: it.in_set(b, c)
        n0 = lambda c: g0.isnode(it, c)
        return [("barren nodes are nodes outside of the given set", z3.ForAll([x], Implies(inb(x), And(n0(x), Not(self.inS(x)))))),
                ("successors of barren nodes are barren", z3.ForAll([x, y], Implies(And(inb(x), n0(y), g0.edge(x, y)), inb(y)))),
                ("the graph has the other nodes, in order", it.same_keys_f(g.nodes, lib.filter_nodes(it, g0.nodes, lambda c: Not(inb(c))))),
                ("the graph has the arcs between them", z3.ForAll([x, y], Implies(And(g.isnode(it, x), g.isnode(it, y)), g.edge(x, y) == g0.edge(x, y))))]
    def measure(self, it, old, new):
        x = z3.Const("mx", U); a, b = (lambda c: it.in_set(old["barren"], c)), (lambda c: it.in_set(new["barren"], c))
        return [("the set of barren nodes grows in every round (termination)", And(z3.ForAll([x], Implies(a(x), b(x))), z3.Exists([x], And(b(x), Not(a(x))))))]
@register
class BarrenInfo(Contract):
    key = M + "_barren_info"; props = ("C23", "C08"); cases = ("list", "set", "none"); helper = True; inv = BarrenInv()
    loops = {(M + "_barren_info", 0): inv}
    def args(self, it, case):
        g = sym_graph(it, acyclic=True); l = None if case == "none" else names_arg(it, "S", "list")
        self.inv.g0, self.inv.inS = g, (lambda x: z3.BoolVal(False)) if l is None else (lambda x: it.member_f(l, x))
        return dict(dag=g, **({} if l is None else dict(S=l if case == "list" else it.to_set(l)))), l
    def post(self, it, case, a, out):
        E = it.E; g = a[0]["dag"]; inS = self.inv.inS; n = f"_barren_info ({case}): "
        if no_exc(it, out, n + "no exception"): return
        if not (isinstance(out.val, Lst) and out.val.concrete and len(out.val.items) == 2): E.record(n + "returns a graph and a set", False); return
        r, b = out.val.items; reach = reach_fn(it, g, inS); nodes = lambda x: g.isnode(it, x); b = it.to_set(b)
        inb = lambda x: it.in_set(b, x); x = E.fresh("x", U)
        topmost(it, lambda y: And(inb(y), reach(y)), g.rank, nodes); topmost(it, lambda y: And(Not(inb(y)), Not(reach(y))), g.rank, nodes)
        E.prove(Implies(inb(x), And(nodes(x), Not(reach(x)))), n + "a barren node has no descendant in the set")
        E.prove(Implies(And(nodes(x), Not(reach(x))), inb(x)), n + "a node without a descendant in the set is barren")
        if not is_graph(it, r, n): return
        prove_graph(it, r, lib.filter_nodes(it, g.nodes, lambda y: Not(inb(y))), g.edge, n)
    def use(self, it, p):
        E = it.E; g, Sx = p["dag"], p.get("S"); st = St(E, None, None, []) if Sx is None else it.to_set(Sx)
        reach = reach_fn(it, g, lambda x: it.in_set(st, x)); b = St(E, U, lambda x: And(g.isnode(it, x), Not(reach(x))), None, kind="name")
        return it.tup(graph_where(it, g, lambda x: reach(x)), b)
@register
class BarrenNodes(Contract):
    key = M + "barren_nodes"; props = ("C23", "C08"); cases = ("list", "none")
    def args(self, it, case):
        l = None if case == "none" else names_arg(it, "S", "list"); return dict(dag=sym_graph(it, acyclic=True), **({} if l is None else dict(S=l))), l
    def post(self, it, case, a, out):
        E = it.E; g, l = a[0]["dag"], a[1]; n = f"barren_nodes ({case}): "
        if no_exc(it, out, n + "no exception"): return
        inS = (lambda x: z3.BoolVal(False)) if l is None else (lambda x: it.member_f(l, x))
        reach = reach_fn(it, g, inS); x = E.fresh("x", U)
        if not isinstance(out.val, St): E.record(n + "returns a set", False); return
        same_reach(it, g)
        E.prove(it.in_set(out.val, x) == And(g.isnode(it, x), Not(reach(x))), n + "exactly the nodes without a descendant in the set")
    def use(self, it, p): return REG[M + "_barren_info"].use(it, p).items[1]
def same_reach(it, g):
    "two functions with the recursion above agree: look at a node of highest rank on which they differ"
    for i, f in enumerate(g.reaches):
        for h in g.reaches[:i]: topmost(it, lambda y: f(y) != h(y), g.rank, lambda y: g.isnode(it, y))
@register
class BarrenRemoval(Contract):
    key = M + "barren_removal"; props = ("C23", "C08"); cases = ("list", "none"); args = BarrenNodes.args
    def post(self, it, case, a, out):
        E = it.E; g, l = a[0]["dag"], a[1]; n = f"barren_removal ({case}): "
        if no_exc(it, out, n + "no exception"): return
        inS = (lambda x: z3.BoolVal(False)) if l is None else (lambda x: it.member_f(l, x))
        reach = reach_fn(it, g, inS); same_reach(it, g)
        if is_graph(it, out.val, n): prove_graph(it, out.val, lib.filter_nodes(it, g.nodes, lambda y: reach(y)), g.edge, n)
    def use(self, it, p): return REG[M + "_barren_info"].use(it, p).items[0]

# ---- separation, connection, Markov blankets
def node_in(it, g, name):
    v = it.E.fresh(name, U); it.E.require(g.isnode(it, v)); return v
@register
class DsepNodes(Contract):
    key = M + "dsep_nodes"; props = ("C23", "C08"); cases = ("name", "list")
    def args(self, it, case):
        E = it.E; g = sym_graph(it)
        if case == "name": t = S(node_in(it, g, "target"), "name")
        else: t = subset_of(it, "target", g.nodes)
        return dict(dag=g, target=t, evidence_nodes=subset_of(it, "ev", g.nodes)), None
    def spec(self, it, g, t, ev):
        t, ev = (it.to_set(it.tup(x) if isinstance(x, (S, str)) else x) for x in (t, ev))
        def f(v):
            y = St(it.E, U, lambda x: x == v, None, kind="name"); z = St(it.E, U, lambda x: And(it.in_set(ev, x), x != v), None, kind="name")
            return And(g.isnode(it, v), lib.dsep_f(it, g, t, y, z))
        return f
    def post(self, it, case, a, out):
        E = it.E; p = a[0]; n = f"dsep_nodes ({case}): "
        if no_exc(it, out, n + "no exception"): return
        if not isinstance(out.val, St): E.record(n + "returns a set", False); return
        v = E.fresh("v", U); E.prove(it.in_set(out.val, v) == self.spec(it, p["dag"], p["target"], p["evidence_nodes"])(v), n + "the nodes separated from the target by the other evidence")
    def use(self, it, p):
        g, st = p["dag"], it.to_set(p["evidence_nodes"]); t = it.to_set(it.tup(p["target"]) if isinstance(p["target"], (S, str)) else p["target"])
        bad = disj([it.E.merge_bool(lambda x=x: zb(it.truth_f(it.set_op("-", x, it.to_set(g.nodes))))) for x in (st, t)])
        if it.E.valid(Not(bad)) is not True: raise Unsupported("dsep_nodes with nodes that the graph may lack")
        return St(it.E, U, memo1(self.spec(it, g, p["target"], p["evidence_nodes"])), None, kind="name")
def memo1(f):
    m = {}
    def g(x):
        if x.get_id() not in m: m[x.get_id()] = z3.simplify(f(x))
        return m[x.get_id()]
    return g
def subset_of(it, name, keys, kind="list", inp=True):
    b = names_base(it, name); l = Lst(it.E, [gen_of(it.E, b)], kind, inp=f"argument {name}" if inp else None); w = z3.Const("w", U)
    it.E.lemma(z3.ForAll([w], Implies(b.mem(w), it.member_f(keys, w)), patterns=[b.mem(w)])); return l
@register
class DconNodes(Contract):
    key = M + "dcon_nodes"; props = ("C23",)
    def args(self, it, case):
        g = sym_graph(it); return dict(dag=g, target=S(node_in(it, g, "target"), "name"), evidence_nodes=subset_of(it, "ev", g.nodes)), None
    def spec(self, it, p):
        d = REG[M + "dsep_nodes"].spec(it, p["dag"], p["target"], p["evidence_nodes"]); t = it.uterm(p["target"])
        return lambda v: And(p["dag"].isnode(it, v), Not(d(v)), v != t)
    def post(self, it, case, a, out):
        E = it.E; n = "dcon_nodes: "
        if no_exc(it, out, n + "no exception"): return
        if not isinstance(out.val, St): E.record(n + "returns a set", False); return
        v = E.fresh("v", U); E.prove(it.in_set(out.val, v) == self.spec(it, a[0])(v), n + "the other nodes that are not separated from the target")
    def use(self, it, p):
        bad = it.E.merge_bool(lambda: zb(it.truth_f(it.set_op("-", it.to_set(p["evidence_nodes"]), it.to_set(p["dag"].nodes)))))
        if it.E.valid(Not(bad)) is not True: raise Unsupported("dcon_nodes with nodes that the graph may lack")
        return St(it.E, U, memo1(self.spec(it, p)), None, kind="name")
@register
class Blanket(Contract):
    key = M + "markov_blanket"; props = ("C23",); cases = ("none", "list")
    def args(self, it, case):
        g = sym_graph(it, acyclic=True); v = S(node_in(it, g, "v"), "name"); return dict(dag=g, v=v, **({} if case == "none" else dict(hidden=names_arg(it, "hidden", "list")))), None
    def post(self, it, case, a, out):
        E = it.E; p = a[0]; g, v = p["dag"], it.uterm(p["v"]); n = f"markov_blanket ({case}): "
        if no_exc(it, out, n + "no exception"): return
        if not isinstance(out.val, (St, Lst)): E.record(n + "returns a set", False); return
        r = it.to_set(out.val); x, c = E.fresh("x", U), z3.Const("ch", U)
        nb = lambda a, b: And(g.isnode(it, a), g.isnode(it, b), g.edge(a, b))
        direct = Or(nb(v, x), nb(x, v), And(x != v, z3.Exists([c], And(nb(v, c), nb(x, c)))))
        if case == "none": E.prove(it.in_set(r, x) == direct, n + "parents, children and the other parents of the children"); return
        h = p["hidden"]; empty = Not(it.nonempty_f(h.segs))
        obs = Lst(E, [Gen(s.base, s.c, z3.simplify(And(s.g, Not(it.member_f(h, s.c)), s.c != v))) for s in g.nodes.segs], "list")
        con = REG[M + "dcon_nodes"].spec(it, dict(dag=g, target=p["v"], evidence_nodes=obs))
        E.prove(Implies(Not(empty), it.in_set(r, x) == con(x)), n + "with hidden variables: the nodes connected to it given the observed ones")
        E.prove(Implies(empty, it.in_set(r, x) == direct), n + "without hidden variables: parents, children and the other parents of the children")
def targets(it, t): return it.to_set(it.tup(t) if isinstance(t, (S, str)) else t)
def connected_spec(it, g, t, y):
    c = z3.Const("tc", U); st = targets(it, t)
    if st.vals is not None: j = disj([lib.joined_f(it, g, it.uterm(x), y) for x in st.vals])
    else: j = z3.Exists([c], And(it.in_set(st, c), lib.joined_f(it, g, c, y)))
    return Or(it.in_set(st, y), j)
@register
class Connected(Contract):
    key = M + "connected"; props = ("C23", "C08"); cases = ("name", "list")
    def args(self, it, case):
        g = sym_graph(it, name="G"); t = S(node_in(it, g, "target"), "name") if case == "name" else subset_of(it, "target", g.nodes)
        return dict(G=g, target=t, y=S(node_in(it, g, "y"), "name")), None
    def post(self, it, case, a, out):
        p = a[0]; n = f"connected ({case}): "
        if no_exc(it, out, n + "no exception"): return
        it.E.prove(zb(it.truth_f(out.val)) == connected_spec(it, p["G"], p["target"], it.uterm(p["y"])), n + "a target itself, or joined to one by a path")
    def use(self, it, p):
        E = it.E; g = p["G"]; st = targets(it, p["target"]); y = it.uterm(p["y"])
        bad = it.E.merge_bool(lambda: zb(it.truth_f(it.set_op("-", st, it.to_set(g.nodes)))))
        if E.valid(And(Not(bad), g.isnode(it, y))) is not True: raise Unsupported("connected: nodes that the graph may lack")
        return S(connected_spec(it, g, p["target"], y))
@register
class Disconnected(Contract):
    key = M + "disconnected_nodes"; props = ("C23", "C08"); cases = ("name", "list")
    def args(self, it, case):
        a, _ = REG[M + "connected"].args(it, case); a.pop("y"); return a, None
    def post(self, it, case, a, out):
        E = it.E; p = a[0]; n = f"disconnected_nodes ({case}): "
        if no_exc(it, out, n + "no exception"): return
        if not isinstance(out.val, St): E.record(n + "returns a set", False); return
        v = E.fresh("v", U); E.prove(it.in_set(out.val, v) == And(p["G"].isnode(it, v), Not(connected_spec(it, p["G"], p["target"], v))), n + "the nodes that are not joined to a target")
    def use(self, it, p):
        E = it.E; g = p["G"]; bad = it.E.merge_bool(lambda: zb(it.truth_f(it.set_op("-", targets(it, p["target"]), it.to_set(g.nodes)))))
        if E.valid(Not(bad)) is not True: raise Unsupported("disconnected_nodes: targets that the graph may lack")
        return St(E, U, memo1(lambda v: And(g.isnode(it, v), Not(connected_spec(it, g, p["target"], v)))), None, kind="name")
