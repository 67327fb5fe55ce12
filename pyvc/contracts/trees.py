from .base import *
M = "bcause.factors.values.treedictops:TreeDictStoreOperations."

def tree_in(it, name):
    t = it.new_tree(name); it.E.fact(wf(t.t)); it.open_tree(t.t); t.unfold = True; t.inp = "the tree " + name
    return t
def op_arg(it, name="op"):
    "an arbitrary binary operation on numbers"
    f = it.E.fresh_fn(name, R, R, R)
    def call(a, b): return S(f(real(lib.as_number(it, a)), real(lib.as_number(it, b))))
    return Native(name, call), f
def as_tree(it, v):
    if isinstance(v, (TreeVal, Dct, int, float, S, Tensor)): return v
    raise Unsupported(f"tree expected: {v!r}")
def tree_result(it, ev, occf, name="res"):
    "a tree known by its values and by the variables that may occur in it"
    r = it.new_tree(name); E = it.E; w = z3.Const("w", U)
    r.ev = memo_ev(ev, it.E)
    E.fact(wf(r.t)); E.fact(z3.ForAll([w], Implies(occ(r.t, w), occf(w)), patterns=[occ(r.t, w)])); it.open_tree(r.t)
    return r
def occ_pred(it, v):
    "predicate of the variables that occur in an argument of a call; a number has none"
    if isinstance(v, TreeVal): return lambda w: occ(v.t, w)
    if isinstance(v, (int, float, S, Tensor)): return lambda w: z3.BoolVal(False)
    raise Unsupported("variables of a tree under construction")
def need_wf(it, v, who):
    if isinstance(v, TreeVal):
        it.open_tree(v.t)
        if it.E.valid(wf(v.t)) is not True: raise Unsupported(f"{who}: well-formed tree not established")
    elif isinstance(v, Dct): raise Unsupported("tree under construction as an argument")

@register
class Combine(Contract):
    key = M + "_combine_dict"; props = ("C01",)
    def args(self, it, case):
        d1, d2 = tree_in(it, "d1"), tree_in(it, "d2"); op, f = op_arg(it)
        return dict(d1=d1, d2=d2, operation=op), f
    def post(self, it, case, a, out):
        args, f = a; E = it.E; d1, d2 = args["d1"], args["d2"]
        if no_exc(it, out, "_combine_dict: no exception"): return
        X = it.valuation(); r = out.val
        E.prove(it.tree_eval(r, X) == f(it.tree_eval(d1, X), it.tree_eval(d2, X)), "_combine_dict: value at every assignment is the operation on the operands' values")
        w = E.fresh("w", U)
        E.prove(Implies(it.tree_occ(r, w), Or(occ(d1.t, w), occ(d2.t, w))), "_combine_dict: only variables of the operands")
        it.prove_tree_wf(r, "_combine_dict: result is a well-formed tree")
    def use(self, it, v):
        d1, d2, op = as_tree(it, v["d1"]), as_tree(it, v["d2"]), v["operation"]
        need_wf(it, d1, "_combine_dict"); need_wf(it, d2, "_combine_dict")
        o1, o2 = occ_pred(it, d1), occ_pred(it, d2)
        def ev(X): return it.E.merge_term(lambda: real(lib.as_number(it, it.call(op, [S(it.tree_eval(d1, X)), S(it.tree_eval(d2, X))], {}))))
        return tree_result(it, ev, lambda w: Or(o1(w), o2(w)), "comb")

def obs_shift(it, obs, X):
    lam = it.E.lam
    def st(w): return it.E.merge_term(lambda: (it.E.require(it.has_key(obs, S(w))), it.uterm(it.dget(obs, S(w, "name"))))[1])
    if not obs.segs: return X
    if obs.concrete:
        for s in obs.segs: X = If(lam == it.uterm(s.k), it.uterm(s.v), X)
        return X
    s = obs.segs[0]
    if len(obs.segs) == 1 and isinstance(s, DGen) and s.key is None and s.base.sort == U and not obs.ovr: return If(s.has(lam), it.E.merge_term(lambda: (it.E.require(s.has(lam)), it.uterm(s.val(lam)))[1]), X)
    return If(it.has_key(obs, S(lam)), st(lam), X)
def observation(it, name="obs", inp="observation"):
    "an observation of unknown variables; the states may lie outside the domains"
    b = names_base(it, name); f = it.E.fresh_fn("val_" + name, U, U)
    d = Dct(it.E, [DGen(b, it.E.fresh("x_" + name, U), z3.BoolVal(True), lambda x: S(f(x), "state"))], inp=inp)
    return d
def obs_in_domain(it, obs, vars_pred):
    "formula: every observed variable among vars_pred has a state of its domain"
    w = it.E.fresh("w", U)
    f = it.E.merge_bool(lambda: (it.E.require(it.has_key(obs, S(w))), st_in(w, it.uterm(it.dget(obs, S(w, "name")))))[1])
    return z3.ForAll([w], Implies(And(zb(it.has_key(obs, S(w))), vars_pred(w)), f))

@register
class Restrict(Contract):
    key = M + "_restrict_dict"; props = ("C03",)
    def args(self, it, case):
        t = tree_in(it, "data"); obs = observation(it)
        it.E.require(obs_in_domain(it, obs, lambda w: occ(t.t, w)))
        return dict(data=t, observation=obs), None
    def post(self, it, case, a, out):
        E = it.E; t, obs = a[0]["data"], a[0]["observation"]
        if no_exc(it, out, "_restrict_dict: no exception when the states are in the domain"): return
        X = it.valuation(); r = out.val
        E.prove(it.tree_eval(r, X) == it.tree_eval(t, obs_shift(it, obs, X)), "_restrict_dict: value is that of the tree under the observation")
        w = E.fresh("w", U)
        E.prove(Implies(it.tree_occ(r, w), And(occ(t.t, w), Not(it.has_key(obs, S(w))))), "_restrict_dict: no observed variable is left, none is added")
        it.prove_tree_wf(r, "_restrict_dict: result is a well-formed tree")
    def use(self, it, v):
        t, obs = as_tree(it, v["data"]), v["observation"]
        need_wf(it, t, "_restrict_dict"); o = occ_pred(it, t)
        obs = obs.snap()
        if it.E.valid(obs_in_domain(it, obs, o)) is not True: 
            if it.E.decide(Not(obs_in_domain(it, obs, o))): raise PyRaise("KeyError", "state outside of the domain (possibly)")
        return tree_result(it, lambda X: it.tree_eval(t, obs_shift(it, obs, X)), lambda w: And(o(w), Not(it.has_key(obs, S(w)))), "restr")

def kind_op(it, kind):
    f = lib.CANDS[kind]
    return Native(kind, lambda a, b: S(f(real(lib.as_number(it, a)), real(lib.as_number(it, b)))))
@register
class Marginalize(Contract):
    key = M + "_marginalize_dict"; props = ("C02",); cases = ("sum", "max")
    def args(self, it, case):
        d = tree_in(it, "d"); v = it.E.fresh("v", U)
        k = S(st_size(v)) if case == "sum" else 1
        return dict(d=d, var_to_remove=S(v, "name"), k=k, operation=kind_op(it, case)), (d, v)
    def post(self, it, case, a, out):
        E = it.E; d, v = a[1]; n = f"_marginalize_dict({case}): "
        if no_exc(it, out, n + "no exception"): return
        X = it.valuation(); r = out.val
        spec = it.agg_states(case, v, lambda s: it.tree_eval(d, If(E.lam == v, s, X)))
        E.prove(it.tree_eval(r, X) == spec, n + "value is the aggregate over the states of the removed variable")
        w = E.fresh("w", U)
        E.prove(Implies(it.tree_occ(r, w), And(occ(d.t, w), w != v)), n + "the removed variable is gone, none is added")
        it.prove_tree_wf(r, n + "result is a well-formed tree")
    def use(self, it, p):
        E = it.E; d, v = as_tree(it, p["d"]), it.uterm(p["var_to_remove"]); need_wf(it, d, "_marginalize_dict"); o = occ_pred(it, d)
        a, b = E.fresh("a", R), E.fresh("b", R)
        kind = lib.detect(it, real(it.call(p["operation"], [S(a), S(b)], {})), a, b)
        if kind not in ("sum", "max"): raise Unsupported("operation of _marginalize_dict")
        E.prove(real(p["k"]) == (z3.ToReal(st_size(v)) if kind == "sum" else 1), f"_marginalize_dict({kind}): caller passes the weight of a leaf without the variable")
        return tree_result(it, lambda X: it.agg_states(kind, v, lambda s: it.tree_eval(d, If(E.lam == v, s, X))), lambda w: And(o(w), w != v), "marg")

@register
class DefaultTree(Contract):
    "tree of the values given in row-major order of the domain"
    key = "bcause.util.treesutil:build_default_tree"; props = ("C04", "C01"); cases = ("flat", "array")
    def args(self, it, case):
        E = it.E; dom = domain_dict(it, "dom", inp="dom"); keys = it.keys(dom); sym = ("tab", "data", E.birth())
        E.require(it.nonempty_f(keys.segs))
        t = Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)), inp="data")
        return dict(dom=dom, data=lib.FlatT(t) if case == "flat" else t), t
    def post(self, it, case, a, out):
        E = it.E; n = f"build_default_tree ({case}): "; t = a[1]; keys = it.keys(a[0]["dom"])
        if no_exc(it, out, n + "no exception"): return
        r = as_tree(it, out.val); X = it.valuation(); w = E.fresh("w", U)
        E.prove(it.tree_eval(r, X) == t.val(X), n + "value at every assignment is the one at its position")
        E.prove(Implies(it.tree_occ(r, w), it.member_f(keys, w)), n + "only variables of the domain")
        it.prove_tree_wf(r, n + "result is a well-formed tree")
    def use(self, it, p):
        dom, d = p["dom"], p["data"]; E = it.E; t = d.t if isinstance(d, lib.FlatT) else d; keys = it.keys(dom)
        if not isinstance(t, Tensor): raise Unsupported(f"build_default_tree of {d!r}")
        if E.valid(it.nonempty_f(keys.segs)) is not True: raise Unsupported("build_default_tree: domain may be empty")
        if E.valid(lib.same_axes(it, t.axes, dom)) is not True: raise Unsupported("build_default_tree: values of another domain")
        if E.valid(it.nonempty_f(keys.segs)) is not True: raise Unsupported("build_default_tree: domain may be empty")
        return tree_result(it, t.val, lambda w: it.member_f(keys, w), "deftree")
