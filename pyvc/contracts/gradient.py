"""The gradient learner (C22): the objective is the negative log-likelihood, the tables it is made from, and the table that is learned."""
import ast
from ..interp import assigned_names, carried_names, ContinueSig, BreakSig, ReturnSig, Env
from .base import *
from .models import *
from .ordering import poison
from .learning import IPL
GL = "bcause.learning.parameter.gradient:GradientLikelihood"
LOG = lambda t: z3.Function("log", R, R)(t)

# ---- the objective
class Nest:
    "a nested dictionary of numbers: for the states of the children, of their other parents, and (depth 3) of the exogenous variable"
    def __init__(self, q, f, depth, keys=()): self.q, self.f, self.depth, self.keys = q, f, depth, tuple(keys)
    def base(self): return self.q["bases"][len(self.keys)]
    def at(self, t): k = self.keys + (t,); return S(self.f(*k)) if len(k) == self.depth else Nest(self.q, self.f, self.depth, k)
    def gen(self, it, elem=None): b = self.base(); return Gen(b, it.E.fresh("x", U), z3.BoolVal(True), elem)
    def vc_iter(self, it): return [self.gen(it)]
    def vc_len(self, it): return it.length(Lst(it.E, [self.gen(it)]))
    def vc_getitem(self, it, k):
        t = it.uterm(k)
        if it.E.decide(Not(self.base().mem(t))): raise PyRaise("KeyError", k)
        return self.at(t)
    def vc_attr(self, it, k):
        if k == "keys": return lib.Callable_(lambda: Lst(it.E, [self.gen(it)], "keys"))
        if k == "values": return lib.Callable_(lambda: Lst(it.E, [self.gen(it, lambda x: self.at(x))], "gen"))
        if k == "items": return lib.Callable_(lambda: Lst(it.E, [self.gen(it, lambda x: it.tup(S(x, "key"), self.at(x)))], "gen"))
        raise Unsupported(f"{k} of a table of counts")
class Theta:
    "the parameters, one for each state of the exogenous variable, in order"
    def __init__(self, q, f): self.q, self.f = q, f
    def vc_iter(self, it): return [Gen(self.q["bases"][2], it.E.fresh("x", U), z3.BoolVal(True), lambda x: S(self.f(x)))]
    def vc_getitem(self, it, k):
        if not (isinstance(k, S) and k.meta and k.meta[0] == "pos"): raise Unsupported("parameter")
        l, x = k.meta[1], k.meta[2]
        if len(l.segs) != 1 or not isinstance(l.segs[0], Gen) or l.segs[0].base is not self.q["bases"][2] or not z3.is_true(z3.simplify(l.segs[0].g)): raise Unsupported("parameter at the position of another list")
        return S(self.f(x))
def one_carried(s, env):
    tn = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]); c = carried_names(s.body, tn)
    if len(c) != 1: raise Unsupported("loop that carries several values")
    return c[0]
def nll_loops(it, s, env, itv):
    "each pair of states adds its term once; an impossible observation ends the loops"
    E = it.E; q = it.nll; level = q["level"]; n = "objective: "; segs = it.iter_segs(itv)
    if not isinstance(s, ast.For) or len(segs) != 1 or not isinstance(segs[0], Gen): raise Unsupported("loop of the objective")
    seg = segs[0]
    if seg.base is q["bases"][2]: return it.loop_gen(s, seg, env)
    if level > 1 or seg.base is not q["bases"][level] or E.valid(z3.ForAll([seg.c], Implies(seg.base.mem(seg.c), seg.g))) is not True: raise Unsupported("loop of the objective")
    k = one_carried(s, env); a0 = env.get(k)
    if level == 0: E.prove(real(a0) == 0, n + "the sum starts with nothing")
    a0 = real(a0); v = q["keys"]; row, tot = q["row"], q["total"]
    if E.decide(E.fresh("round", B)):
        c = E.fresh("key", U); E.require(seg.has(c)); r = E.fresh("sum_so_far", R); poison(s, env, [k]); env.set(k, S(a0 + r)); lg = Log(E.births); E.logs.append(lg); q["level"], q["keys"] = level + 1, v + (c,)
        try:
            it.bind_target(s.target, seg.elem(c), env); it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: raise Unsupported("break")
        finally: E.logs.remove(lg)
        if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop changes something else")
        kk = v + (c,)
        if level == 1:
            E.prove(real(env.get(k)) == a0 + r + q["term"](*kk), n + "each pair of states adds its count times the logarithm of its probability"); E.prove(Not(q["bad"](*kk)), n + "an observation without probability is not passed over")
        else:
            if q["level"] != 1 or not q.get("inner"): raise Unsupported("loops of the objective")
            E.prove(real(env.get(k)) == a0 + r + row(c), n + "each row adds its sum")
        raise PathEnd()
    x = z3.Const("nx", U); q["inner"] = True
    if level == 1: E.fact(z3.ForAll([x], Implies(seg.base.mem(x), Not(q["bad"](v[0], x)))))
    else: y = z3.Const("ny", U); E.fact(z3.ForAll([x, y], Implies(And(seg.base.mem(x), q["bases"][1].mem(y)), Not(q["bad"](x, y)))))
    poison(s, env, [k]); env.set(k, S(a0 + (tot if level == 0 else row(v[0])))); q["level"] = level
    if level == 0: q["done"] = True
    it.exec_block(s.orelse, env)
@register
class Objective(Contract):
    """minus the sum, over the pairs of observed states, of their count times the logarithm of the sum of P * theta over the exogenous states;
    infinite exactly if an observed pair has probability zero"""
    key = GL + ".negative_log_likelihood"; props = ("C22",); loops = {(GL + ".negative_log_likelihood", i): nll_loops for i in range(3)}
    def args(self, it, case):
        E = it.E; q = it.nll = dict(level=0, keys=()); q["bases"] = [Base(E, nm, U, (lambda f: lambda x: f(x))(E.fresh_fn(nm, U, B)), kind="key") for nm in ("children_states", "parents_states", "exogenous_states")]
        N, P, th = E.fresh_fn("N", U, U, I), E.fresh_fn("P", U, U, U, R), E.fresh_fn("theta", U, R); a, b = z3.Consts("na nb", U); E.fact(z3.ForAll([a, b], N(a, b) >= 0, patterns=[N(a, b)]))
        E.require(it.nonempty_f([gen_of(E, q["bases"][2])]))
        prob = lambda v, y: real(lib.b_sum(it, Lst(E, [Gen(q["bases"][2], E.fresh("x", U), z3.BoolVal(True), lambda u: S(P(v, y, u) * th(u)))])))
        q["prob"] = memo(prob); q["term"] = lambda v, y: z3.If(N(v, y) != 0, z3.ToReal(N(v, y)) * LOG(q["prob"](v, y)), z3.RealVal(0))
        bad = E.fresh_fn("impossible", U, U, B); q["bad_fn"] = bad; q["N"] = N
        def badf(v, y):
            if z3.is_const(v) and z3.is_const(y) and v.decl().name() not in ("nx", "ny") and y.decl().name() not in ("nx", "ny"): E.lemma(bad(v, y) == And(N(v, y) != 0, q["prob"](v, y) == 0))
            return bad(v, y)
        q["bad"] = badf; row = E.fresh_fn("row", U, R); q["row"] = lambda v: row(v); q["total"] = E.fresh("total", R)
        m = sym_model(it, "scm"); o = Obj(E, it.get_func(GL), inp="learner"); o.attrs.update(_prior_model=m)
        return dict(self=o, theta=Theta(q, lambda u: th(u)), N_bmVbmY=Nest(q, lambda v, y: N(v, y), 2), P_bmVbmYu=Nest(q, lambda v, y, u: P(v, y, u), 3)), q
    def call(self, it, fn, a): d = dict(a[0]); return it.run_func(fn, [d.pop("self")], d)
    def post(self, it, case, a, out):
        E = it.E; q = a[1]; n = "objective: "; x, y = z3.Consts("nx ny", U); bs = q["bases"]
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if isinstance(r, float) and r == float("inf"):
            if len(q["keys"]) == 2: E.prove(q["bad"](*q["keys"]), n + "infinite only if an observed pair of states has probability zero"); return
            E.prove(z3.Exists([x, y], And(bs[0].mem(x), bs[1].mem(y), q["bad"](x, y))), n + "infinite only if an observed pair of states has probability zero"); return
        if not q.get("done") or isinstance(r, float): raise Unsupported("objective computed in another way")
        a_, b_ = E.fresh("v", U), E.fresh("y", U); E.require(And(bs[0].mem(a_), bs[1].mem(b_))); E.prove(Not(q["bad"](a_, b_)), n + "infinite if an observed pair of states has probability zero")
        E.prove(real(r) == -q["total"], n + "minus the sum")
    def use(self, it, p): raise Unsupported("objective")
def memo(f):
    d = {}
    def g(*a):
        k = tuple(t.get_id() for t in a)
        if k not in d: d[k] = (a, f(*a))
        return d[k][1]
    return g

# ---- the probabilities of the observed states given a state of the exogenous variable
def gl_object(it, m): o = Obj(it.E, it.get_func(GL), inp="learner"); o.attrs.update(_prior_model=m); return o
@register
class OtherParents(Contract):
    "the endogenous parents of the children, without the children"
    key = GL + "._get_bmY"; props = ("C22",); helper = True
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); l = subset_list(it, "children", mgraph(m).nodes, inp="children"); return dict(self=gl_object(it, m), bmV=l, m=m), (m, l.snap(), snap_model(m))
    def post(self, it, case, a, out):
        E = it.E; m, l, s0 = a[1]; n = "other parents: "; x, y = E.fresh("x", U), z3.Const("py", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, (Lst, St)): raise Unsupported("other parents")
        mem = it.in_set(r, x) if isinstance(r, St) else it.member_f(r, x); g = mgraph(m); V = lambda w: it.member_f(l, w)
        E.prove(mem == And(Not(V(x)), g.isnode(it, x), it.member_f(m.attrs["_endogenous"], x), z3.Exists([y], And(V(y), g.edge(x, y)))), n + "exactly the endogenous parents that are no children"); E.record(n + "the model stays", same_snap(m, s0))
    def use(self, it, p):
        m = p["m"]; l = Lst(it.E, it.iter_segs(p["bmV"])).snap(); g = mgraph(m); y = z3.Const("py", U); endo = m.attrs["_endogenous"].snap()
        b = Base(it.E, "other_parents", U, lambda x: And(Not(it.member_f(l, x)), g.isnode(it, x), it.member_f(endo, x), z3.Exists([y], And(it.member_f(l, y), g.edge(x, y)))), kind="name"); return Lst(it.E, [gen_of(it.E, b)], "list")
@register
class RowKey(Contract):
    "the assignment, in the order of the variables of the table: the state of the exogenous variable, and the given states of the others"
    key = GL + "._get_P_v_pav_key"; props = ("C22",); helper = True
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); g = mgraph(m); V = subset_list(it, "children", g.nodes, inp="children"); Y = subset_list(it, "others", g.nodes, inp="other parents"); v = E.fresh("v", U); u = E.fresh("u", U); w = z3.Const("kw", U)
        endo = m.attrs["_endogenous"]; inV, inY = lambda x: it.member_f(V, x), lambda x: it.member_f(Y, x); E.require(inV(v)); fam = m.fam
        E.require(z3.ForAll([w], And(Implies(inV(w), it.member_f(endo, w)), Implies(inY(w), And(it.member_f(endo, w), Not(inV(w)))))))
        E.require(z3.ForAll([w], Implies(fam.indom(v, w), Or(Not(it.member_f(endo, w)), inV(w), inY(w)))))
        f1, f2 = E.fresh_fn("child_state", U, U), E.fresh_fn("parent_state", U, U); d1, d2 = (Dct(E, [DGen(l.segs[0].base, E.fresh("x", U), l.segs[0].g if l.segs[0].c is None else z3.BoolVal(True), (lambda f: lambda x: S(f(x), "state"))(f))], inp="assignment") for l, f in ((V, f1), (Y, f2)))
        return dict(self=gl_object(it, m), bmv=d1, bmy=d2, m=m, u=S(u, "state"), V=S(v, "name"), bmV=V, bmY=Y), (m, v, u, inV, f1, f2, snap_model(m))
    def call(self, it, fn, a): d = dict(a[0]); return it.run_func(fn, [d.pop("self")], d)
    def post(self, it, case, a, out):
        E = it.E; m, v, u, inV, f1, f2, s0 = a[1]; n = "key of a table: "; w = E.fresh("w", U); endo = m.attrs["_endogenous"]
        if no_exc(it, out, n + "no exception"): return
        r = out.val; vs = Lst(E, it.iter_segs(m.fam(v).attrs["_variables"]))
        if not isinstance(r, Lst) or len(vs.segs) != 1: raise Unsupported("key of a table")
        gens = [s for s in r.segs if isinstance(s, Gen)]
        if len(gens) != len(r.segs) or len(gens) != 1 or gens[0].base is not vs.segs[0].base: raise Unsupported("key of a table made in another way")
        s = gens[0]; E.prove(s.has(w) == vs.segs[0].has(w), n + "one entry for each variable of the table, in their order"); E.require(s.has(w))
        def entry():
            p = Lst(E, it.iter_segs(s.elem(w)))
            if not p.concrete or len(p.items) != 2: raise Unsupported("key of a table")
            E.prove(it.uterm(p.items[0]) == w, n + "the variable"); E.prove(it.uterm(p.items[1]) == z3.If(Not(it.member_f(endo, w)), u, z3.If(inV(w), f1(w), f2(w))), n + "its state")
        E.explore(entry); E.record(n + "the model stays", same_snap(m, s0))
    def use(self, it, p):
        b = Base(it.E, "table_key", U, it.E.fresh_fn("table_key", U, B)); b.key = dict(p); return Lst(it.E, [Gen(b, it.E.fresh("x", U), z3.BoolVal(True), lambda x: it.tup(S(x, "name"), S(x)))], "list")
class Tables:
    "the tables of the model: values at the assignments made by _get_P_v_pav_key"
    def __init__(self, q): self.q = q
    def vc_getitem(self, it, v): return TableOf(self.q, it.uterm(v))
    def vc_attr(self, it, k):
        if k == "get": return lib.Callable_(lambda v: TableOf(self.q, it.uterm(v)))
        raise Unsupported("tables of the model")
class TableOf:
    def __init__(self, q, v): self.q, self.v = q, v
    def vc_attr(self, it, k):
        if k == "values_dict": return self
        raise Unsupported(f"{k} of a table")
    def vc_getitem(self, it, k):
        p = getattr(k.segs[0].base, "key", None) if isinstance(k, Lst) and k.kind == "tuple" and len(k.segs) == 1 and isinstance(k.segs[0], Gen) else None
        if p is None: raise Unsupported("key of a table")
        q = self.q
        if any(p[n] is not q["args"][n] for n in ("bmv", "bmy", "m")) or it.E.valid(z3.ForAll([q["x"]], And(it.member_f(Lst(it.E, it.iter_segs(p["bmV"])), q["x"]) == q["inV"](q["x"]), it.member_f(Lst(it.E, it.iter_segs(p["bmY"])), q["x"]) == q["inY"](q["x"])))) is not True: raise Unsupported("key of a table for other states")
        if it.E.decide(it.uterm(p["V"]) != self.v): raise PyRaise("KeyError", "assignment of another table")
        return S(q["val"](self.v, it.uterm(p["u"])))
def flag_loop(it, s, env, itv, q):
    "the flag is one while every table visited so far has a value other than zero"
    E = it.E; n = "probability of the states: "; segs = it.iter_segs(itv); u = q["u"]
    if len(segs) != 1 or not isinstance(segs[0], Gen) or segs[0].base.sort != U: raise Unsupported("loop over the children")
    seg = segs[0]; x = z3.Const("fx", U); k = None
    for nm in sorted(assigned_names(s.body)):
        try: v = env.get(nm)
        except KeyError: continue
        if isinstance(v, (int, float, bool)):
            if k: raise Unsupported("several flags")
            k = nm
    if k is None: raise Unsupported("flag not identified")
    E.prove(real(env.get(k)) == 1, n + "the product starts with one"); a = E.fresh("w", U); E.prove(seg.has(a) == q["inV"](a), n + "exactly the children are visited")
    P = E.fresh_fn("visited", U, B); E.fact(z3.ForAll([x], Implies(P(x), seg.has(x)), patterns=[P(x)])); allof = lambda Q: z3.ForAll([x], Implies(Q(x), q["val"](x, u) != 0)); flag = lambda Q: z3.If(allof(Q), z3.RealVal(1), z3.RealVal(0))
    poison(s, env, [k])
    if E.decide(E.fresh("round", B)):
        c = E.fresh("child", U); E.require(seg.has(c)); E.require(Not(P(c))); env.set(k, S(flag(P))); lg = Log(E.births); E.logs.append(lg); done = False
        try: it.bind_target(s.target, seg.elem(c), env); it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: done = True
        finally: E.logs.remove(lg)
        if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop changes something else")
        if done: E.prove(real(env.get(k)) == flag(q["inV"]), n + "an early end gives the product of all")
        else: E.prove(real(env.get(k)) == flag(lambda y: Or(P(y), y == c)), n + "each child takes part")
        raise PathEnd()
    poison(s, env, [k]); env.set(k, S(flag(q["inV"])))       # (an early end gives the same)
    it.exec_block(s.orelse, env)
def p_loops(it, s, env, itv):
    E = it.E; q = it.gp; n = "probability of the states: "
    if not isinstance(s, ast.For): raise Unsupported("loop")
    if q["u"] is not None: return flag_loop(it, s, env, itv, q)
    segs = it.iter_segs(itv)
    if len(segs) != 1 or not isinstance(segs[0], Gen): raise Unsupported("loop over the states")
    seg = segs[0]; ds = {id(v): v for v in (env.get(k) for k in env_names(s, env)) if isinstance(v, Dct) and not v.segs and not v.ovr}
    if len(ds) != 1: raise Unsupported("dictionary of the probabilities not identified")
    d, = ds.values(); a = E.fresh("w", U); E.prove(seg.has(a) == st_in(q["U"], a), n + "every state of the exogenous variable is visited")
    if E.decide(E.fresh("round", B)):
        u = E.fresh("u", U); E.require(seg.has(u)); q["u"] = u; poison(s, env); lg = Log(E.births); E.logs.append(lg)
        try: it.bind_target(s.target, seg.elem(u), env); it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: raise Unsupported("break")
        finally: E.logs.remove(lg)
        if any(not isinstance(o, Env) and o is not d for o, e in lg.effects): raise Unsupported("loop changes something else")
        if E.decide(Not(zb(it.has_key(d, S(u, "state"))))): E.prove(z3.BoolVal(False), n + "an entry for every state"); raise PathEnd()
        E.prove(it.has_key(d, S(a, "state")) == (a == u) if not isinstance(it.has_key(d, S(a, "state")), bool) else z3.BoolVal(False), n + "one entry for each state"); x = z3.Const("fx", U)
        E.prove(real(it.dget(d, S(u, "state"))) == z3.If(z3.ForAll([x], Implies(q["inV"](x), q["val"](x, u) != 0)), z3.RealVal(1), z3.RealVal(0)), n + "one if every child's table has a value other than zero, else zero"); raise PathEnd()
    poison(s, env); x = z3.Const("fx", U)
    d.set([DGen(seg.base, E.fresh("x", U), z3.BoolVal(True), lambda u: S(z3.If(z3.ForAll([x], Implies(q["inV"](x), q["val"](x, u) != 0)), z3.RealVal(1), z3.RealVal(0))))], []); it.exec_block(s.orelse, env)
def env_names(s, env):
    from ..interp import loads
    from .elimination import env_has
    return [k for k in sorted(loads(s) | assigned_names(s.body)) if env_has(env, k)]
@register
class ComputeP(Contract):
    "for each exogenous state, whether the equations of all children give their states: one if the values of all their tables are other than zero, else zero"
    key = GL + "._compute_P"; props = ("C22",); helper = True; loops = {(GL + "._compute_P", i): p_loops for i in range(2)}
    def args(self, it, case):
        E = it.E; Ux = E.fresh("U", U); V, Y = E.fresh_fn("child", U, B), E.fresh_fn("other", U, B); val = E.fresh_fn("value", U, U, R); bV, bY = (Base(E, nm, U, (lambda f: lambda x: f(x))(f), kind="name") for nm, f in (("child", V), ("other", Y)))
        q = it.gp = dict(u=None, U=Ux, inV=lambda x: V(x), inY=lambda x: Y(x), val=lambda v, u: val(v, u), x=z3.Const("qq", U))
        class Model:
            def vc_attr(s, it, k):
                if k == "factors": return Tables(q)
                if k == "get_domains":
                    def f(vs):
                        l = [vs] if isinstance(vs, (str, S)) else Lst(E, it.iter_segs(vs)).items
                        if len(l) != 1: raise Unsupported("domains of several variables")
                        t = it.uterm(l[0])
                        return Dct(E, [DOne(S(t, "name"), it.states(t))])
                    return lib.Callable_(f)
                if k == "domains": return Dct(E, [DOne(S(Ux, "name"), it.states(Ux))])
                raise Unsupported(f"{k} of a model")
        mk = lambda b, nm: Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), (lambda f: lambda x: S(f(x), "state"))(E.fresh_fn(nm, U, U)))], inp="assignment")
        m = Model(); o = Obj(E, it.get_func(GL), inp="learner"); o.attrs.update(_prior_model=m)
        a = q["args"] = dict(self=o, bmv=mk(bV, "v"), bmy=mk(bY, "y"), m=m, U=S(Ux, "name"), bmV=Lst(E, [gen_of(E, bV)], "list"), bmY=Lst(E, [gen_of(E, bY)], "list")); return a, q
    def call(self, it, fn, a): d = dict(a[0]); return it.run_func(fn, [d.pop("self")], d)
    def post(self, it, case, a, out):
        E = it.E; q = a[1]; n = "probability of the states: "; u, x = E.fresh("u", U), z3.Const("fx", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, Dct): raise Unsupported("probabilities of the states")
        h = zb(it.has_key(r, S(u, "state"))); E.prove(h == st_in(q["U"], u), n + "an entry for every state of the exogenous variable"); E.require(h)
        E.prove(real(it.dget(r, S(u, "state"))) == z3.If(z3.ForAll([x], Implies(q["inV"](x), q["val"](x, u) != 0)), z3.RealVal(1), z3.RealVal(0)), n + "one if every child's table has a value other than zero")
    def use(self, it, p): raise Unsupported("probabilities of the states")
# ---- the learned table
@register
class CountsAndProbabilities(Contract):
    key = GL + "._compute_N_and_P"; trusted = True; why_trusted = "counts of the records (pandas) and the probabilities of _compute_P for every joint state; compared with the definition by the bounded part (C22)"
    def use(self, it, p): it.gc.append(dict(p)); return it.tup(Opaque("counts"), Opaque("probabilities"))
@register
class FitPMF(Contract):
    key = GL + ".fitPMF"; trusted = True; why_trusted = "scipy's optimiser; that the result is a distribution at which the objective is not above its start is checked by the bounded part (C22)"
    def use(self, it, p):
        E = it.E; U_, = it.gc[-1:]; it.fits.append(dict(p)); return Dct(E, [DOne("params", it.fitted), DOne("trajectory", Opaque("trajectory"))])
@register
class UpdatedFactor(Contract):
    "a table over the exogenous variable alone with the fitted parameters, from the counts and probabilities of its children and their other parents"
    key = GL + "._updated_factor"; props = ("C22",); helper = True
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); g = mgraph(m); u = E.fresh("U", U); y = z3.Const("uy", U); E.require(g.isnode(it, u)); E.require(Not(it.member_f(m.attrs["_endogenous"], u))); E.require(z3.ForAll([y], Not(g.edge(y, u))))
        dom = Dct(E, [DOne(S(u, "name"), it.states(u))], ordered=True); sym = ("tab", "fitted", E.birth()); it.gc, it.fits = [], []; it.fitted = lib.FlatT(Tensor(E, dom, lambda X: it.app(sym, [], X, lambda w: w == u))); it.fit_val = lambda X: it.app(sym, [], X, lambda w: w == u)
        o = gl_object(it, m); o.attrs.update(_data=Opaque("data"), _model=m); return dict(self=o, U=S(u, "name")), (m, u, snap_model(m))
    def call(self, it, fn, a): d = dict(a[0]); return it.run_func(fn, [d["self"], d["U"]], {})
    def post(self, it, case, a, out):
        E = it.E; m, u, s0 = a[1]; n = "learned table: "; w = E.fresh("w", U); g = mgraph(m); y = z3.Const("py", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val; E.record(n + "the model stays", same_snap(m, s0))
        if not is_factor(it, r, "numpy", n): return
        X = it.valuation(); E.prove(is_var(it, r, w) == (w == u), n + "over the exogenous variable alone"); E.prove(Not(is_right(it, r, w)), n + "on the left"); E.prove(fval(it, r, X) == it.fit_val(X), n + "the fitted parameters")
        if len(it.gc) != 1 or len(it.fits) != 1: raise Unsupported("learned table")
        p = it.gc[0]; V = Lst(E, it.iter_segs(p["bmV"])); Y = Lst(E, it.iter_segs(p["bmY"])); ch = lambda w: And(g.isnode(it, w), g.edge(u, w), it.member_f(m.attrs["_endogenous"], w))
        E.record(n + "from the model", p["m"] is m); E.prove(it.uterm(p["U"]) == u, n + "of the variable"); E.prove(it.member_f(V, w) == ch(w), n + "from its children")
        E.prove(it.member_f(Y, w) == And(Not(ch(w)), g.isnode(it, w), it.member_f(m.attrs["_endogenous"], w), z3.Exists([y], And(ch(y), g.edge(w, y)))), n + "and their other endogenous parents")
    def use(self, it, p): return Learned(it.uterm(p["U"]), p["self"])
class Learned:
    "the table learned for a variable (contract of _updated_factor)"
    def __init__(self, u, o): self.u, self.o = u, o
@register
class UpdatedFactors(Contract):
    "a table for each variable that is learned, and for no other"
    key = GL + "._calculate_updated_factors"; props = ("C22",); helper = True
    def args(self, it, case):
        m = sym_model(it, "scm"); o = gl_object(it, m); T = subset_list(it, "trainable", mgraph(m).nodes, inp="trainable variables"); o.attrs.update(_trainable_vars=T, _data=Opaque("data")); return dict(self=o), (m, T.snap(), o, snap_model(m))
    def call(self, it, fn, a): return it.run_func(fn, [a[0]["self"]], {})
    def post(self, it, case, a, out):
        E = it.E; m, T, o, s0 = a[1]; n = "learned tables: "; x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val; E.record(n + "the model stays", same_snap(m, s0))
        if not isinstance(r, Dct): raise Unsupported("learned tables")
        h = zb(it.has_key(r, S(x, "name"))); E.prove(h == it.member_f(T, x), n + "exactly the variables that are learned"); E.require(h)
        def entry():
            t = it.dget(r, S(x, "name"))
            if not isinstance(t, Learned) or t.o is not o: raise Unsupported("learned tables")
            E.prove(t.u == x, n + "each its own table")
        E.explore(entry)
    def use(self, it, p): raise Unsupported("learned tables")
