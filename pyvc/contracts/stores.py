"""Operations on stored values: the same contracts for the storage by trees and the storage by arrays."""
from .base import *
from .trees import observation, obs_shift, obs_in_domain, tree_result, op_arg, need_wf
V = "bcause.factors.values."
KINDS = {"tree": (V + "treedictstore:TreeDictStore", V + "treedictops:TreeDictStoreOperations"), "numpy": (V + "numpystore:NumpyStore", V + "numpyops:NumpyStoreOperations")}

def dom_of(it, st): return st.attrs["_domain"]
def new_store(it, kind, dom, data):
    """a store of the kind, built by its own constructor (the constructor of the tree store keeps a tree as it is given, whether
    it is a node or a leaf: contract TreeInit; so the two cases are not distinguished here)"""
    c = it.get_func(KINDS[kind][0]); d0 = it.depth; it.depth += 1
    if isinstance(data, TreeVal): data.as_given = True
    try: return it.instantiate(c, [], dict(domain=dom, data=data))
    finally:
        it.depth = d0
        if isinstance(data, TreeVal): data.as_given = False
def kind_of(it, st):
    for k, (c, o) in KINDS.items():
        if st.cls.name == c.split(":")[1]: return k
    raise Unsupported(f"storage {st.cls.name}")
def sym_store(it, kind, name, dom=None, inp=True):
    "an arbitrary store that meets the representation invariant"
    E = it.E
    dom = dom if dom is not None else domain_dict(it, "dom_" + name)
    keys = it.keys(dom)
    if kind == "tree":
        t = it.new_tree(name); w = z3.Const("w", U)
        E.fact(wf(t.t)); it.open_tree(t.t); E.fact(z3.ForAll([w], Implies(occ(t.t, w), it.member_f(keys, w)), patterns=[occ(t.t, w)]))
        data = t
    else:
        sym = ("tab", name, E.birth())
        data = Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)))
    st = new_store(it, kind, dom, data)
    if inp: mark(it, st, name)
    return st
def mark(it, st, name):
    st.inp = name; st.attrs["_domain"].inp = f"domain of {name}"
    d = st.attrs["_data"]
    if isinstance(d, (Tensor, TreeVal)): d.inp = f"values of {name}"
def sval(it, st, X):
    "value of the store at a valuation"
    d = st.attrs["_data"]
    if isinstance(d, Tensor): return d.val(X)
    if isinstance(d, lib.FlatT): return d.t.val(X)
    return it.tree_eval(d, X)
def depends(it, st): 
    k = it.keys(dom_of(it, st)); return lambda w: it.member_f(k, w)
def prove_inv(it, st, n):
    "representation invariant"
    E = it.E; d, dom = st.attrs["_data"], dom_of(it, st); keys = it.keys(dom)
    if isinstance(d, Tensor): E.prove(it.same_keys_f(it.keys(d.axes), keys), n + "axes of the array follow the domain")
    elif isinstance(d, lib.FlatT): E.prove(it.same_keys_f(it.keys(d.t.axes), keys), n + "values follow the domain")
    else:
        it.prove_tree_wf(d, n + "data is a well-formed tree"); w = E.fresh("w", U)
        E.prove(Implies(it.tree_occ(d, w), it.member_f(keys, w)), n + "tree over the variables of the domain")
    w = E.fresh("w", U)
    def vals():
        E.require(it.member_f(keys, w)); l = it.dget(dom, S(w, "name"))
        if not isinstance(l, Lst): E.record(n + "domain maps variables to their states", False); return
        E.prove(zb(it.seq_eq(l, it.states(w))), n + "domain maps variables to their states")
    E.explore(vals)
def prove_domain(it, st, segs, n):
    "keys of the domain are exactly those of the segments, in order"
    it.E.prove(it.same_keys_f(it.keys(dom_of(it, st)), Lst(it.E, segs)), n + "variables and their order")
def result_store(it, kind, dom, valf, E=None):
    "a store known by its values"
    E = it.E; keys = it.keys(dom)
    if kind == "tree": data = tree_result(it, valf, lambda w: it.member_f(keys, w), "data")
    else: data = Tensor(E, dom.snap(), valf)
    return new_store(it, kind, dom, data)
def is_store(it, v, kind, n):
    ok = isinstance(v, Obj) and v.cls.name == KINDS[kind][0].split(":")[1]
    it.E.record(n + "returns a store of the same kind", bool(ok)); return ok
def filtered(it, dom, keep):
    segs = []
    for s in dom.segs:
        if isinstance(s, DOne):
            if it.E.decide(keep(it.uterm(s.k))): segs.append(s)
        else: segs.append(DGen(s.base, s.c, z3.simplify(And(s.g, keep(s.c))), lambda x: it.states(x)))
    return Dct(it.E, segs, ordered=True)
def union_dom(it, d1, d2):
    k1 = it.keys(d1); segs = [s if isinstance(s, DOne) else DGen(s.base, s.c, s.g, lambda x: it.states(x)) for s in d1.segs]
    return Dct(it.E, segs + filtered(it, d2, lambda w: Not(it.member_f(k1, w))).segs, ordered=True)
def no_alias(it, r, others, n):
    d = r.attrs["_data"]
    if isinstance(d, Tensor):
        it.E.record(n + "result does not share its array with an operand", all(d.buf != o.attrs["_data"].buf for o in others if isinstance(o.attrs["_data"], Tensor)))
def names_list(it, name, kind="tuple", inp=None):
    b = names_base(it, name); return Lst(it.E, [gen_of(it.E, b)], kind, inp=inp)

def make(kind):
    ops = KINDS[kind][1]
    class Marg(Contract):
        opkind = "sum"; fname = "marginalize"; props = ("C02", "C05")
        def args(self, it, case):
            st = sym_store(it, kind, "store"); vs = names_list(it, "vars", inp="vars_remove")
            w = it.E.fresh("w", U); it.E.require(z3.ForAll([w], Implies(it.member_f(vs, w), it.member_f(it.keys(dom_of(it, st)), w))))
            return dict(store=st, vars_remove=vs), None
        def post(self, it, case, a, out):
            E = it.E; st, vs = a[0]["store"], a[0]["vars_remove"]; n = f"{kind} {self.fname}: "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_store(it, r, kind, n): return
            X = it.valuation()
            P = lambda w: it.member_f(vs, w)
            prove_domain(it, r, it.keys(filtered(it, dom_of(it, st), lambda w: Not(P(w)))).segs, n)
            E.prove(sval(it, r, X) == it.agg_vars(self.opkind, P, lambda Y: sval(it, st, Y), X), n + "value is the aggregate over the removed variables")
            prove_inv(it, r, n); no_alias(it, r, [st], n)
        def use(self, it, p):
            st, vs = p["store"], p["vars_remove"]; E = it.E; keys = it.keys(dom_of(it, st))
            vs = Lst(E, it.iter_segs(vs)); P = lambda w: z3.simplify(it.member_f(vs, w))
            w = E.fresh("w", U)
            if not E.decide(z3.ForAll([w], Implies(P(w), it.member_f(keys, w)))): raise PyRaise("KeyError" if kind == "tree" else "ValueError", "variable not in the domain")
            return result_store(it, kind, filtered(it, dom_of(it, st), lambda w: Not(P(w))), lambda X: it.agg_vars(self.opkind, P, lambda Y: sval(it, st, Y), X))
    class MaxMarg(Marg): opkind = "max"; fname = "maxmarginalize"
    Marg.key, MaxMarg.key = f"{ops}.marginalize", f"{ops}.maxmarginalize"
    class Restr(Contract):
        key = f"{ops}.restrict"; props = ("C03", "C05")
        def args(self, it, case):
            return dict(store=sym_store(it, kind, "store"), observation=observation(it)), None
        def post(self, it, case, a, out):
            E = it.E; st, obs = a[0]["store"], a[0]["observation"]; n = f"{kind} restrict: "; keys = it.keys(dom_of(it, st))
            good = obs_in_domain(it, obs, lambda w: it.member_f(keys, w))
            if out.kind == "raise": E.prove(Not(good), n + "no exception when the observed states are in the domain"); return
            r = out.val
            if not is_store(it, r, kind, n): return
            if kind == "numpy": E.prove(good, n + "a state outside of the domain is rejected")
            else: E.require(good)
            X = it.valuation()
            prove_domain(it, r, it.keys(filtered(it, dom_of(it, st), lambda w: Not(it.has_key(obs, S(w))))).segs, n)
            E.prove(sval(it, r, X) == sval(it, st, obs_shift(it, obs, X)), n + "value is that of the store under the observation")
            prove_inv(it, r, n); no_alias(it, r, [st], n)
        def use(self, it, p):
            E = it.E; st, obs = p["store"], p["observation"].snap(); keys = it.keys(dom_of(it, st))
            for s in obs.segs:
                if isinstance(s, DOne) and not isinstance(s.v, (S, str, int)): raise Unsupported("observation of several states")
            if not E.decide(obs_in_domain(it, obs, lambda w: it.member_f(keys, w))): raise PyRaise("IndexError", "state outside of the domain")
            return result_store(it, kind, filtered(it, dom_of(it, st), lambda w: Not(it.has_key(obs, S(w)))), lambda X: sval(it, st, obs_shift(it, obs, X)))
    class GenComb(Contract):
        key = f"{ops}._generic_combine"; props = ("C01", "C05")
        def args(self, it, case):
            a, b = sym_store(it, kind, "op1"), sym_store(it, kind, "op2"); op, f = op_arg(it)
            if kind == "numpy": op = tensor_callable(it, f)
            return dict(op1=a, op2=b, operation=op), f
        def post(self, it, case, a, out):
            E = it.E; s1, s2, f = a[0]["op1"], a[0]["op2"], a[1]; n = f"{kind} _generic_combine: "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_store(it, r, kind, n): return
            X = it.valuation()
            prove_domain(it, r, it.keys(union_dom(it, dom_of(it, s1), dom_of(it, s2))).segs, n)
            E.prove(sval(it, r, X) == f(sval(it, s1, X), sval(it, s2, X)), n + "value at every joint assignment is the operation on the operands' values")
            prove_inv(it, r, n); no_alias(it, r, [s1, s2], n)
        def use(self, it, p):
            E = it.E; s1, s2, op = p["op1"], p["op2"], p["operation"]
            if not (isinstance(s2, Obj) and isinstance(s1, Obj)) or s1.cls.name != s2.cls.name: raise PyRaise("ValueError", "storages")
            def ev(X):
                x, y = sval(it, s1, X), sval(it, s2, X)
                def f():
                    r = it.call(op, [S(x), S(y)], {})
                    return real(lib.as_number(it, r))
                return E.merge_term(f)
            return result_store(it, kind, union_dom(it, dom_of(it, s1), dom_of(it, s2)), memo_ev(ev))
    out = [Marg, MaxMarg, Restr, GenComb]
    import ast
    for nm, op in (("multiply", ast.Mult()), ("addition", ast.Add()), ("subtract", ast.Sub()), ("divide", ast.Div())):
        class Bin(Contract):
            key = f"{ops}.{nm}"; props = ("C01", "C05"); name, op_ = nm, op; cases = (None, "other storage")
            def args(self, it, case):
                other = [k for k in KINDS if k != kind][0]
                return dict(store=sym_store(it, kind, "store"), other=sym_store(it, kind if case is None else other, "other")), None
            def post(self, it, case, a, out):
                E = it.E; s1, s2 = a[0]["store"], a[0]["other"]; n = f"{kind} {self.name}: "
                if case: E.record(n + "an operand in another storage is rejected", out.kind == "raise" and out.val.cls == "ValueError"); return
                if no_exc(it, out, n + "no exception"): return
                r = out.val
                if not is_store(it, r, kind, n): return
                X = it.valuation()
                prove_domain(it, r, it.keys(union_dom(it, dom_of(it, s1), dom_of(it, s2))).segs, n)
                E.prove(sval(it, r, X) == lib.num_op(it, self.op_, sval(it, s1, X), sval(it, s2, X)), n + "value at every joint assignment")
                prove_inv(it, r, n)
            def use(self, it, p):
                s1, s2 = p["store"], p["other"]
                if not (isinstance(s2, Obj) and isinstance(s1, Obj)) or s1.cls.name != s2.cls.name: raise PyRaise("ValueError", "storages")
                return result_store(it, kind, union_dom(it, dom_of(it, s1), dom_of(it, s2)), memo_ev(lambda X: lib.num_op(it, self.op_, sval(it, s1, X), sval(it, s2, X))))
        out.append(Bin)
    for c in out: register(c)
def states_only(it, d, who):
    "entries of a domain are the states of their variables"
    c = it.E.fresh("c", U)
    def chk():
        it.E.require(it.has_key(d, S(c, "name"))); l = it.dget(d, S(c, "name"))
        return isinstance(l, Lst) and it.E.valid(zb(it.seq_eq(l, it.states(c))))
    if not all(o.kind == "ok" and o.val is True for o in it.E.explore(chk)): raise Unsupported(f"{who}: domain of a variable")
NO = KINDS["numpy"][1]
@register
class Reorder(Contract):
    "array store with its axes in another order"
    key = NO + "._reorder"; props = ("C01", "C05"); helper = True
    def args(self, it, case): return dict(store=sym_store(it, "numpy", "store"), new_var_order=names_list(it, "order")), None
    def call(self, it, fn, a): return it.call_func(fn, [a[0]["store"], *a[0]["new_var_order"].segs], {})
    def order(self, it, st, vs):
        dom = dom_of(it, st); keys = it.keys(dom)
        front = [One(s.v) if isinstance(s, One) else Gen(s.base, s.c, z3.simplify(And(s.g, it.member_f(keys, s.c)))) for s in vs.segs]
        if any(isinstance(s, One) for s in front): raise Unsupported("order with single variables")
        return front + it.keys(filtered(it, dom, lambda w: Not(it.member_f(vs, w)))).segs
    def post(self, it, case, a, out):
        E = it.E; st, vs = a[0]["store"], a[0]["new_var_order"]; n = "numpy _reorder: "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_store(it, r, "numpy", n): return
        X = it.valuation(); prove_domain(it, r, self.order(it, st, vs), n)
        E.prove(sval(it, r, X) == sval(it, st, X), n + "values are unchanged"); prove_inv(it, r, n)
    def use(self, it, p):
        st, vs = p["store"], Lst(it.E, p["new_var_order"].segs)
        if not it.all_ident(vs): raise Unsupported("_reorder: variables")
        segs = [DGen(s.base, s.c, s.g, lambda x: it.states(x)) for s in self.order(it, st, vs)]
        return result_store(it, "numpy", Dct(it.E, segs, ordered=True), lambda X: sval(it, st, X))
@register
class Extend(Contract):
    "array store with further variables that it does not depend on"
    key = NO + "._extend_domain"; props = ("C01", "C05"); helper = True
    def args(self, it, case): return dict(store=sym_store(it, "numpy", "store"), extra_dom=domain_dict(it, "extra")), None
    def call(self, it, fn, a): return it.call_func(fn, [a[0]["store"]], {"**": [a[0]["extra_dom"]]})
    def post(self, it, case, a, out):
        E = it.E; st, ex = a[0]["store"], a[0]["extra_dom"]; n = "numpy _extend_domain: "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_store(it, r, "numpy", n): return
        X = it.valuation(); prove_domain(it, r, it.keys(union_dom(it, dom_of(it, st), ex)).segs, n)
        E.prove(sval(it, r, X) == sval(it, st, X), n + "values do not depend on the new variables"); prove_inv(it, r, n)
    def use(self, it, p):
        st, ex = p["store"], p["extra_dom"].snap(); states_only(it, ex, "_extend_domain")
        return result_store(it, "numpy", union_dom(it, dom_of(it, st), ex), lambda X: sval(it, st, X))
def tensor_callable(it, f):
    "an arbitrary elementwise operation on arrays"
    def call(a, b):
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            E = it.E
            same = lib.same_axes(it, a.axes, b.axes)
            if E.valid(same) is not True and not E.decide(same):
                E.prove(same, "arrays combined elementwise have the same axes in the same order"); raise PathEnd()
            return Tensor(E, a.axes, lambda X: f(a.val(X), b.val(X)))
        return S(f(real(lib.as_number(it, a)), real(lib.as_number(it, b))))
    return Native("op", call)
for k in KINDS: make(k)
