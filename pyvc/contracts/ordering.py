"""Elimination orders (C09): the greedy loop removes each variable once, one of least cost in the current moral graph each time."""
import ast
from ..interp import assigned_names, ContinueSig, BreakSig, Env
from .base import *
from .models import *
from .elimination import env_has
REAL, EDGE = R, lib.EDGE
OR = "bcause.inference.ordering:"
class FillIn:
    "the fill-in arcs of a variable in the moral graph in a state"
    def __init__(self, var, state): self.var, self.state = var, state
    def vc_iter(self, it):
        E = it.E; f, a, b = E.fresh_fn("fill_in", U, B), E.fresh_fn("fill_x", U, U), E.fresh_fn("fill_y", U, U)
        return [Gen(Base(E, "fill_in", U, f), E.fresh("x", U), z3.BoolVal(True), lambda c: Lst(E, [One(S(a(c), "name")), One(S(b(c), "name"))], "tuple"))]
class Moral:
    "the moral graph of a graph, with the changes made to it since"
    def __init__(self, it, g): self.it, self.g, self.state, self.ops, self.sizes = it, g, it.E.fresh("graph_state", U), [], None
    def vc_attr(self, it, k):
        if k == "nodes": return MoralNodes(self)
        if k == "edges": return Opaque("edges")
        if k == "add_edge": return lib.Callable_(lambda x, y: self.ops.append(("add", x, y)))
        if k == "remove_node": return lib.Callable_(lambda v: self.ops.append(("remove", v)))
        raise Unsupported(f"{k} of the moral graph")
class MoralNodes:
    def __init__(self, m): self.m = m
    def vc_getitem(self, it, k): return MoralNode(self.m, k)
class MoralNode:
    def __init__(self, m, v): self.m, self.v = m, v
    def vc_setitem(self, it, k, x): self.m.ops.append(("set", k, self.v, x))
def ordering_loops(it, s, env, itv):
    if isinstance(s, ast.While): return greedy(it, s, env)
    if isinstance(itv, FillIn): return fill(it, s, env, itv)
    return sizes(it, s, env, itv)
def body(it, s, env):
    lg = Log(it.E.births); it.E.logs.append(lg)
    try: it.exec_block(s.body, env)
    except ContinueSig: pass
    except BreakSig: raise Unsupported("break")
    finally: it.E.logs.remove(lg)
    return lg.effects
def poison(s, env, keep=()):
    names = assigned_names(s.body) | ({k.id for k in ast.walk(s.target) if isinstance(k, ast.Name)} if isinstance(s, ast.For) else set())
    for k in sorted(names - set(keep)): env.set(k, Poison(f"{k} of another round"))
    return names
def fill(it, s, env, f):
    "the fill-in arcs are added, and nothing else"
    E = it.E; m = it.eo["moral"]; x, y = E.fresh("fx", U), E.fresh("fy", U)
    if m.ops: raise Unsupported("changes of the moral graph before the fill-in arcs")
    poison(s, env); it.bind_target(s.target, Lst(E, [One(S(x, "name")), One(S(y, "name"))], "tuple"), env); eff = body(it, s, env)
    if any(not isinstance(o, Env) for o, e in eff): raise Unsupported("loop over fill-in arcs")
    ok = len(m.ops) == 1 and m.ops[0][0] == "add"
    E.prove(Or(*[And(it.uterm(a) == u, it.uterm(b) == v) for _, a, b in m.ops for u, v in ((x, y), (y, x))]) if ok else z3.BoolVal(False), "order: each fill-in arc is added to the moral graph")
    poison(s, env); m.ops[:] = [("fill", f.var, f.state)]; it.exec_block(s.orelse, env)
def sizes(it, s, env, itv):
    E = it.E; q = it.eo; m = q["moral"]; segs = it.iter_segs(itv)
    if m is None or m.ops or not (len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].ident): raise Unsupported("loop")
    c = E.fresh("node", U); a = E.fresh("w", U); E.require(segs[0].has(c)); poison(s, env); it.bind_target(s.target, S(c, "name"), env); eff = body(it, s, env)
    if any(not isinstance(o, Env) for o, e in eff) or len(m.ops) != 1 or m.ops[0][0] != "set" or m.ops[0][1] != "size": raise Unsupported("loop")
    E.prove(And(it.uterm(m.ops[0][2]) == c, real(m.ops[0][3]) == z3.ToReal(st_size(c))), "order: sizes of the variables")
    E.prove(segs[0].has(a) == q["N"](a), "order: every variable gets its size"); m.ops[:] = []; m.sizes = True; poison(s, env); it.exec_block(s.orelse, env)
def greedy(it, s, env):
    E = it.E; q = it.eo; m = q["moral"]; R0 = q["R"]; a = E.fresh("w", U); x = z3.Const("ox", U); n = "order: "
    from ..interp import loads
    names = [k for k in sorted(assigned_names(s.body) | loads(s)) if env_has(env, k)]
    lists = {id(env.get(k)): env.get(k) for k in names if isinstance(env.get(k), Lst) and env.get(k).kind == "list"}.values()
    rest = [l for l in lists if l.segs and E.valid(z3.ForAll([x], it.member_f(l, x) == R0(x))) is True]; done = [l for l in lists if not l.segs]
    if len(rest) != 1 or len(done) != 1 or m is None or m.ops: raise Unsupported("greedy loop: remaining variables and order not identified")
    rest, done = rest[0], done[0]; keep = [k for k in names if env.get(k) is rest or env.get(k) is done]; rn, dn = ([k for k in keep if env.get(k) is o] for o in (rest, done))
    if q["by_size"]: E.record(n + "the costs by size know the sizes", m.sizes is True)
    P = E.fresh_fn("ordered", U, B); E.fact(z3.ForAll([x], Implies(P(x), R0(x)), patterns=[P(x)])); left = lambda y: And(R0(y), Not(P(y)))
    bd = Base(E, "ordered", U, lambda y: P(y), kind="name"); br = Base(E, "remaining", U, lambda y: left(y), kind="name")
    poison(s, env, keep); rest.set([gen_of(E, br)]); done.set([gen_of(E, bd)]); m.state = E.fresh("graph_state", U)
    if E.decide(zb(it.truth_f(it.ev(s.test, env)))):
        eff = body(it, s, env)
        if any(not isinstance(o, Env) and o is not rest and o is not done for o, e in eff): raise Unsupported("greedy loop changes something else")
        if len(rn) != 1 or len(dn) != 1: raise Unsupported("greedy loop: remaining variables and order have several names")
        rest, done = env.get(rn[0]), env.get(dn[0])
        if not isinstance(rest, Lst) or not isinstance(done, Lst): raise Unsupported("greedy loop: remaining variables and order")
        new = [g.v for g in done.segs if isinstance(g, One)]; gens = [g for g in done.segs if isinstance(g, Gen)]
        if len(new) != 1 or len(gens) != 1 or gens[0].base is not bd or E.valid(gens[0].has(a) == P(a)) is not True: raise Unsupported("greedy loop: order")
        c = it.uterm(new[0]); E.prove(left(c), n + "one of the remaining variables is taken")
        E.prove(it.member_f(rest, a) == And(left(a), a != c), n + "it is not taken again")
        E.prove(Implies(left(a), q["cost"](m.state, c) <= q["cost"](m.state, a)), n + "it is of least cost in the current moral graph")
        ok = [o[0] for o in m.ops] == ["fill", "remove"]; E.record(n + "fill-in arcs are added, then the variable is removed from the moral graph", ok)
        if ok: E.prove(And(it.uterm(m.ops[0][1]) == c, m.ops[0][2] == m.state, it.uterm(m.ops[1][1]) == c), n + "the fill-in arcs of the variable taken")
        raise PathEnd()
    poison(s, env, keep); it.exec_block(s.orelse, env)

class Linked:
    "an undirected graph without loops: neighbours and sizes"
    def __init__(self, it):
        E = it.E; self.it, self.memo, self.fills = it, {}, {}; self.f = E.fresh_fn("linked", U, U, B); x, y = z3.Consts("nx ny", U); f = self.f
        E.lemma(z3.ForAll([x, y], Implies(f(x, y), And(f(y, x), x != y)), patterns=[f(x, y)]))
    def near(self, v, kind="keys"):
        E = self.it.E; t = z3.simplify(self.it.uterm(v)); k = t.get_id()
        if k not in self.memo: self.memo[k] = (t, Base(E, "neighbours", U, lambda w: self.f(t, w), kind="name"))
        return Lst(E, [gen_of(E, self.memo[k][1])], kind)
    def vc_getitem(self, it, k): return self.near(k)
    def vc_attr(self, it, k):
        if k == "adj": return self
        if k == "neighbors": return lib.Callable_(lambda v: self.near(v, "gen"))
        if k == "nodes": return Sizes(self)
        raise Unsupported(f"{k} of a graph")
class Sizes:
    def __init__(self, g): self.g = g
    def vc_getitem(self, it, v): return SizeOf(it.uterm(v))
class SizeOf:
    def __init__(self, v): self.v = v
    def vc_getitem(self, it, k):
        if k != "size": raise PyRaise("KeyError", k)
        return S(st_size(self.v))
@register
class FillinArcs(Contract):
    "the pairs of distinct neighbours of a variable that are not joined, each once"
    key = OR + "fillin_arcs"; props = ("C09",)
    def args(self, it, case):
        g = Linked(it); v = it.E.fresh("var", U); return dict(var=S(v, "name"), moral=g), (g, v)
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; g, v = a[1]; n = "fill-in arcs: "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, Lst) or len(r.segs) != 1 or not isinstance(r.segs[0], Gen) or r.segs[0].base.sort != EDGE: raise Unsupported("fill-in arcs")
        s = r.segs[0]; e = E.fresh("pair", EDGE); x, y = E.fresh("x", U), E.fresh("y", U); f = g.f; E.require(s.has(e)); t = s.elem(e)
        p, q = (it.uterm(k) for k in Lst(E, it.iter_segs(t)).items)
        E.prove(And(f(v, p), f(v, q), p != q, Not(f(p, q))), n + "pairs of distinct neighbours that are not joined")
        if E.valid(And(p == EDGE.src(e), q == EDGE.dst(e))) is not True and E.valid(And(q == EDGE.src(e), p == EDGE.dst(e))) is not True: raise Unsupported("fill-in arcs made in another way")
        pair = lambda a, b: s.has(EDGE.constructor(0)(a, b))
        E.prove(Implies(And(f(v, x), f(v, y), x != y, Not(f(x, y))), Or(pair(x, y), pair(y, x))), n + "all of them"); E.prove(Not(And(pair(x, y), pair(y, x))), n + "each once")
    def use(self, it, p):
        m = p["moral"]
        if isinstance(m, Moral): return FillIn(p["var"], m.state)
        if isinstance(m, Linked):
            k = z3.simplify(it.uterm(p["var"])); return m.fills.setdefault(k.get_id(), Lst(it.E, [gen_of(it.E, Base(it.E, "fill_in", EDGE, it.E.fresh_fn("fill_in", EDGE, B), wrap=it.edge_tuple))], "list"))
        raise Unsupported("fill-in arcs")
def cost(by):
    @register
    class Cost(Contract):
        "number of neighbours; product of the sizes of the variable and its neighbours; number of fill-in arcs"
        key = OR + f"cost_functions[{by}]"; props = ("C09",)
        def fn(self, it): m = it.module(OR[:-1]); return it.dget(it.resolve(m.ns["cost_functions"]), by)
        def args(self, it, case): g = Linked(it); v = it.E.fresh("var", U); return dict(v=S(v, "name"), g=g), (g, v)
        def call(self, it, fn, a): return it.call(fn, [a[0]["v"], a[0]["g"]], {})
        def post(self, it, case, a, out):
            E = it.E; g, v = a[1]; n = f"cost {by}: "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if by == "MIN_SIZE": E.prove(real(r) == real(it.length(g.near(S(v, "name")))), n + "number of neighbours"); return
            if by == "MIN_FILL": E.prove(real(r) == real(it.length(FillinArcs.use(it, dict(var=S(v, "name"), moral=g)))), n + "number of fill-in arcs"); return
            if not isinstance(r, lib.ProdOf): raise Unsupported("product of sizes")
            gens = [s for s in r.lst.segs if isinstance(s, Gen)]; ones = [s.v for s in r.lst.segs if isinstance(s, One)]; b = g.memo.get(z3.simplify(v).get_id(), (0, None))[1]
            if len(gens) != 1 or gens[0].base is not b or not z3.is_true(z3.simplify(gens[0].g)): raise Unsupported("product of other sizes")
            c = E.fresh("c", U); E.require(b.mem(c)); E.prove(real(gens[0].elem(c)) == z3.ToReal(st_size(c)), n + "the sizes of the neighbours")
            E.prove(real(ones[0]) == z3.ToReal(st_size(v)) if len(ones) == 1 else z3.BoolVal(False), n + "and of the variable, once")
        def use(self, it, p): raise Unsupported("cost")
for b_ in ("MIN_SIZE", "MIN_WEIGHT", "MIN_FILL"): cost(b_)

@register
class ElimOrdering(Contract):
    """each variable to remove is listed exactly once and no other; it is one of least cost in the moral graph at its turn; then its fill-in arcs are
    added and it leaves the graph (whatever the cost function)"""
    key = OR + "_get_elim_ordering"; props = ("C09", "C07"); cases = ("MIN_SIZE", "MIN_WEIGHT", "MIN_FILL"); loops = {(OR + "_get_elim_ordering", i): ordering_loops for i in range(4)}
    def args(self, it, case):
        E = it.E; g = sym_graph(it, "dag", acyclic=True); base = g.nodes.segs[0].base; l = subset_list(it, "to_remove", g.nodes, inp=None); R = lambda w: it.member_f(l, w); before = l.snap()
        cost = E.fresh_fn("cost", U, U, REAL); q = it.eo = dict(moral=None, R=lambda w: it.member_f(before, w), N=base.mem, cost=cost, by_size=case == "MIN_WEIGHT", asked=[])
        def moral(h):
            if q["moral"] is not None: raise Unsupported("several moral graphs")
            if h is not g: raise Unsupported("moral graph of another graph")
            q["moral"] = Moral(it, g); return q["moral"]
        it.moral = moral
        class Costs:
            def vc_getitem(self, it, k):
                q["asked"].append(k)
                def f(v, m):
                    if not isinstance(m, Moral): raise Unsupported("cost in another graph")
                    if m.ops: raise Unsupported("cost in the middle of a change")
                    return S(cost(m.state, it.uterm(v)))
                return lib.Callable_(f)
        mod = it.module(OR[:-1]); mod.ns["cost_functions"] = Costs(); H = it.get_func(OR + "Heuristic")
        sizes = Dct(E, [DGen(base, E.fresh("x", U), z3.BoolVal(True), lambda v: S(st_size(v)))], inp="sizes")
        return dict(dag=g, varsizes=sizes, to_remove=l, heuristic=H.ns[case]), (q["R"],)
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; R, = a[1]; n = f"order ({case}): "; w = E.fresh("w", U)
        if no_exc(it, out, n + "no exception"): return
        E.record(n + "by the cost asked for", it.eo["asked"] == [case]); r = out.val
        if not isinstance(r, Lst) or len(r.segs) > 1 or r.segs and not (isinstance(r.segs[0], Gen) and r.segs[0].ident): raise Unsupported("order")
        E.prove(it.member_f(r, w) == R(w), n + "each variable to remove exactly once, no other")
    def use(self, it, p):
        h = p["heuristic"]
        if not isinstance(h, Obj) or h.cls.name != "Heuristic": raise Unsupported("order for an unknown heuristic")
        return Ordered(p["dag"], p["to_remove"], p["varsizes"], h.attrs["name"])
class Ordered:
    "an order (contract of _get_elim_ordering)"
    def __init__(self, dag, to_remove, sizes, by): self.dag, self.to_remove, self.sizes, self.by = dag, to_remove, sizes, by

def heuristic(name, by):
    @register
    class HeuristicFn(Contract):
        "orders the variables to remove in the graph by this cost"
        key = OR + name; props = ("C09", "C07"); cases = ("sizes", "no sizes") if by == "MIN_WEIGHT" else ("sizes", "no sizes", "extra arguments")
        def args(self, it, case):
            E = it.E; g = sym_graph(it, "dag", acyclic=True); base = g.nodes.segs[0].base; l = subset_list(it, "to_remove", g.nodes, inp=None)
            sizes = Dct(E, [DGen(base, E.fresh("x", U), z3.BoolVal(True), lambda v: S(st_size(v)))], inp="sizes"); a = dict(dag=g, to_remove=l)
            if case != "no sizes": a["varsizes"] = sizes
            if case == "extra arguments": a["random_state"] = 3
            return a, (sizes, l.snap())
        def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
        def post(self, it, case, a, out):
            E = it.E; p, (sizes, before) = a; n = f"{name} ({case}): "; w = E.fresh("w", U)
            if by == "MIN_WEIGHT" and case == "no sizes": E.record(n + "refused without the sizes", out.kind == "raise" and out.val.cls == "ValueError"); return
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not isinstance(r, Ordered): raise Unsupported("order of another function")
            if r.dag is not p["dag"] or not isinstance(r.to_remove, (Lst, St)) or by == "MIN_WEIGHT" and not isinstance(r.sizes, Dct): raise Unsupported("order in another graph")
            E.record(n + "by this cost", r.by == by)
            E.prove(zb(it.contains(r.to_remove, S(w, "name"))) == it.member_f(before, w), n + "an order of the variables asked for")
            if by == "MIN_WEIGHT" and r.sizes is not sizes: E.prove(zb(it.eq(r.sizes, sizes)), n + "by the sizes given")
        def use(self, it, p): raise Unsupported("heuristic")
    return HeuristicFn
heuristic("min_fill_heuristic", "MIN_FILL"); heuristic("min_size_heuristic", "MIN_SIZE"); heuristic("min_weight_heuristic", "MIN_WEIGHT")

@register
class VEInit(Contract):
    "a heuristic given by name is the function of that name, one given as a function is kept; by default, least weight; functions that lack an argument are refused"
    key = "bcause.inference.probabilistic.elimination:VariableElimination.__init__"; props = ("C09", "C07")
    cases = ("default", "MIN_SIZE", "MIN_WEIGHT", "MIN_FILL", "min_fill_heuristic", "heuristic_functions", "fillin_arcs")
    def args(self, it, case):
        E = it.E; o = Obj(E, it.get_func("bcause.inference.probabilistic.elimination:VariableElimination")); m = sym_model(it, "bn"); a = dict(self=o, model=m)
        if case.isupper(): a["heuristic"] = it.get_func(OR + "Heuristic").ns[case]
        elif case == "heuristic_functions": a["heuristic"] = it.get_func(OR + "_get_elim_ordering")
        elif case != "default": a["heuristic"] = it.get_func(OR + case)
        return a, m
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; n = f"variable elimination ({case}): "
        if case == "fillin_arcs": E.record(n + "a function without the arguments of a heuristic is refused", out.kind == "raise" and out.val.cls == "ValueError"); return
        if no_exc(it, out, n + "no exception"): return
        want = a[0].get("heuristic"); w = dict(default="min_weight_heuristic", MIN_SIZE="min_size_heuristic", MIN_WEIGHT="min_weight_heuristic", MIN_FILL="min_fill_heuristic").get(case)
        if w: want = it.get_func(OR + w)
        h = o.attrs.get("_heuristic"); E.record(n + "the heuristic asked for", isinstance(h, Func) and h.key == want.key)
        E.record(n + "the model; nothing compiled yet", o.attrs.get("_model") is a[1] and o.attrs.get("_compiled") is False)
    def use(self, it, p): return it.run_func(it.get_func(self.key), [], dict(p))
