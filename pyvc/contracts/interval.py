"""Interval factors: lower and upper bound at every assignment, and how they are read (C17)."""
from .base import *
from .factors import *
from .multi import Envelope, IPF
LOW, UP = "low", "up"
def bound_label(it): return it.uterm("_bound")
def public_names(it, keys):
    "precondition: names of variables do not start with an underscore"
    E = it.E; x = z3.Const("px", U); st = z3.Function("startswith:_", U, B); E.assumptions.add("names of variables do not start with an underscore")
    E.fact(z3.ForAll([x], Implies(it.member_f(keys, x), And(Not(st(x)), x != bound_label(it))), patterns=[st(x)])); E.fact(z3.ForAll([x], Implies(it.member_f(keys, x), x != bound_label(it))))
def at(it, X, which): return If(it.E.lam == bound_label(it), it.uterm(which), X)
def prove_interval(it, o, keys, low, up, left, n):
    "an interval factor over the keys (a Lst) with the bounds low(X), up(X); left: the predicate of its left variables"
    E = it.E
    if not (isinstance(o, Obj) and o.cls.name == "IntervalProbFactor" and isinstance(o.attrs.get("_store"), Obj) and o.attrs["_store"].cls.name == "NumpyStore"): E.record(n + "returns an interval factor", False); return
    X = it.valuation(); st = fstore(o); w = E.fresh("w", U)
    E.prove(sval(it, st, at(it, X, LOW)) == low(X), n + "lower bound at every assignment"); E.prove(sval(it, st, at(it, X, UP)) == up(X), n + "upper bound at every assignment")
    E.prove(it.same_keys_f(it.keys(st.attrs["_data"].axes), it.keys(dom_of(it, st))), n + "axes of the array follow the domain")
    E.prove(it.same_keys_f(it.keys(dom_of(it, st)), Lst(E, [One("_bound")] + keys.segs)), n + "bounds, then the variables in order")
    E.prove(it.same_keys_f(Lst(E, o.attrs["_variables"].segs), it.keys(dom_of(it, st))), n + "variables are those of the domain")
    def vals():
        E.require(it.member_f(keys, w)); l = it.dget(dom_of(it, st), S(w, "name"))
        if not isinstance(l, Lst): E.record(n + "domain maps variables to their states", False); return
        E.prove(zb(it.seq_eq(l, it.states(w))), n + "domain maps variables to their states")
    E.explore(vals)
    lv = it.getattr(o, "left_vars"); E.prove(it.member_f(lv, w) == And(it.member_f(keys, w), left(w)), n + "left variables")
def sym_interval(it, name="interval", inp=True):
    "an arbitrary interval factor, made by its constructor"
    E = it.E; dom = domain_dict(it, "dom_" + name); keys = it.keys(dom); public_names(it, keys); c = it.get_func(IPF); t = []
    for b in (LOW, UP): t.append((lambda sym: Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w))))(("tab", b + name, E.birth())))
    left = subset_list(it, "left_" + name, keys); d0 = it.depth; it.depth += 1
    try: o = it.instantiate(c, [], dict(domain=dom, values_low=t[0], values_up=t[1], left_vars=left))
    finally: it.depth = d0
    if inp: o.inp = name; fstore(o).inp = name; fstore(o).attrs["_domain"].inp = f"domain of {name}"; fstore(o).attrs["_data"].inp = f"bounds of {name}"
    return o, keys, t[0].val, t[1].val, left
class IPFContract(Contract):
    def use(self, it, p): return it.run_func(it.get_func(self.key), [], dict(p))
@register
class IntervalInit(IPFContract):
    "the bounds at every assignment are those given for it; all variables without the left ones are on the right"
    key = IPF + ".__init__"; props = ("C17",); cases = ("array/left", "array/none", "array/right")
    def args(self, it, case):
        E = it.E; dom = domain_dict(it, "dom", inp="domain argument"); keys = it.keys(dom); public_names(it, keys); t = []; form, side = case.split("/")
        for b in (LOW, UP): t.append((lambda sym: Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)), inp=b + " values argument"))(("tab", b, E.birth())))
        a = dict(domain=dom, values_low=t[0], values_up=t[1])
        if side != "none": a[side + "_vars"] = subset_list(it, side, keys, inp=side + " variables argument")
        return a, Obj(E, it.get_func(IPF))
    def call(self, it, fn, a): it.call_func(fn, [a[1]], dict(a[0])); return a[1]
    def post(self, it, case, a, out):
        p = a[0]; n = f"IntervalProbFactor({case}): "
        if no_exc(it, out, n + "no exception"): return
        keys = it.keys(p["domain"]); left = (lambda w: it.member_f(p["left_vars"], w)) if "left_vars" in p else (lambda w: Not(it.member_f(p["right_vars"], w))) if "right_vars" in p else lambda w: z3.BoolVal(True)
        prove_interval(it, a[1], keys, p["values_low"].val, p["values_up"].val, left, n)
        it.E.record(n + "bounds are copied", fstore(a[1]).attrs["_data"].buf not in (p["values_low"].buf, p["values_up"].buf))
@register
class FromPrecise(Contract):
    "lower and upper bound at every assignment are the smallest and the largest value of the factors; other domains are refused"
    key = IPF + ".from_precise"; props = ("C17",); cases = ("numpy", "tree", "numpy/other domain")
    def args(self, it, case):
        E = it.E; kind = case.split("/")[0]; dom = domain_dict(it, "dom"); keys = it.keys(dom); public_names(it, keys); f0 = sym_factor(it, kind, "first", dom); sym = ("tab", "precise", E.birth())
        n = E.fresh("n_factors", I); E.fact(n >= 0); b = Base(E, "factors", I, lambda i: And(0 <= i, i < n), lambda x, y: x < y, length=n); right = fright(it, f0)
        def other(i): return make_factor(it, kind, dom.snap(), lambda X: it.app(sym, [i], X, lambda w: it.member_f(keys, w)), right)
        l = [One(f0)]; dom2 = None
        if case.endswith("other domain"): dom2 = domain_dict(it, "dom2"); l.append(One(sym_factor(it, kind, "second", dom2)))
        return dict(list_factors=Lst(E, l + [Gen(b, E.fresh("i", I), z3.BoolVal(True), other)], "list", inp="list of factors")), (dom, dom2, f0, b, sym)
    def fn(self, it): return it.get_func(self.key)
    def call(self, it, fn, a): return it.run_func(fn, [a[0]["list_factors"]], {})
    def post(self, it, case, a, out):
        E = it.E; dom, dom2, f0, b, sym = a[1]; n = f"from_precise ({case}): "; keys = it.keys(dom)
        if dom2 is not None:
            same = it.same_keys_f(keys, it.keys(dom2))
            if out.kind == "raise": E.record(n + "other domains: ValueError", out.val.cls == "ValueError"); E.prove(Not(same), n + "no exception if the domains are the same")
            else: E.prove(same, n + "factors with other domains are refused")
            return
        if no_exc(it, out, n + "no exception"): return
        def bound(k): return lambda X: real(lib.b_max(it, Lst(E, [One(S(fval(it, f0, X))), Gen(b, E.fresh("i", I), z3.BoolVal(True), lambda i: S(it.app(sym, [i], X, lambda w: it.member_f(keys, w))))]), kind=k))
        prove_interval(it, out.val, keys, bound("min"), bound("max"), lambda w: Not(is_right(it, f0, w)), n)
    def use(self, it, p): return Envelope(it, Lst(it.E, it.iter_segs(p["list_factors"]), "list"))
# ---- reading an interval factor
@register
class IntervalRestrict(IPFContract):
    "the bounds under the observation, over the variables that are not observed; fully observed: the two bounds"
    key = IPF + ".restrict"; props = ("C17",); cases = ("any", "complete")
    def args(self, it, case):
        E = it.E; o, keys, low, up, left = sym_interval(it); obs = observation(it, inp="observation argument"); w = E.fresh("w", U)
        E.require(z3.ForAll([w], Implies(it.has_key(obs, S(w)), w != bound_label(it)))); E.require(obs_in_domain(it, obs, lambda w: it.member_f(keys, w)))
        if case == "complete": E.require(z3.ForAll([w], Implies(it.member_f(keys, w), it.has_key(obs, S(w)))))
        return dict(self=o), (o, keys, low, up, left, obs)
    def call(self, it, fn, a): return it.run_func(fn, [a[1][0]], {"**": [a[1][5]]})
    def post(self, it, case, a, out):
        E = it.E; o, keys, low, up, left, obs = a[1]; n = f"restrict of an interval factor ({case}): "
        if no_exc(it, out, n + "no exception"): return
        r = out.val; kept = lib.filter_nodes(it, Lst(E, keys.segs), lambda w: Not(it.has_key(obs, S(w))))
        prove_interval(it, r, kept, lambda X: low(obs_shift(it, obs, X)), lambda X: up(obs_shift(it, obs, X)), lambda w: it.member_f(left, w), n)
    def use(self, it, p): raise Unsupported("restrict of an interval factor")
class Part(IPFContract):
    props = ("C17",)
    def args(self, it, case): o, keys, low, up, left = sym_interval(it); return dict(self=o), (keys, dict(low=low, up=up), left)
    def call(self, it, fn, a): return it.run_func(fn, [a[0]["self"]], {})
class Bound(Part):
    def post(self, it, case, a, out):
        E = it.E; keys, b, left = a[1]; n = f"{self.key.split('.')[-1]}: "
        if no_exc(it, out, n + "no exception"): return
        if is_store(it, out.val, "numpy", n):
            X = it.valuation(); E.prove(sval(it, out.val, X) == b[self.which](X), n + "the bound at every assignment"); prove_domain(it, out.val, keys.segs, n); prove_inv(it, out.val, n); no_alias(it, out.val, [fstore(a[0]["self"])], n)
@register
class StoreLow(Bound): "the lower bound"; key = IPF + ".store_low"; which = "low"
@register
class StoreUp(Bound): "the upper bound"; key = IPF + ".store_up"; which = "up"
@register
class IntervalDomain(Part):
    "the variables with their states, without the axis of the bounds"
    key = IPF + ".domain"
    def post(self, it, case, a, out):
        E = it.E; keys, _, _ = a[1]; n = "domain of an interval factor: "; w = E.fresh("w", U)
        if no_exc(it, out, n + "no exception"): return
        if not isinstance(out.val, Dct): E.record(n + "a dictionary", False); return
        E.prove(it.same_keys_f(it.keys(out.val), keys), n + "the variables in order")
        def vals():
            E.require(it.member_f(keys, w)); l = it.dget(out.val, S(w, "name"))
            if not isinstance(l, Lst): E.record(n + "maps variables to their states", False); return
            E.prove(zb(it.seq_eq(l, it.states(w))), n + "maps variables to their states")
        E.explore(vals)
@register
class IntervalVariables(Part):
    "the variables in order, without the axis of the bounds"
    key = IPF + ".variables"
    def post(self, it, case, a, out):
        n = "variables of an interval factor: "
        if no_exc(it, out, n + "no exception"): return
        it.E.prove(it.same_keys_f(Lst(it.E, it.iter_segs(out.val)), a[1][0]), n + "the variables in order")
@register
class IntervalLeft(Part):
    "the left variables given for it, without the axis of the bounds"
    key = IPF + ".left_vars"
    def post(self, it, case, a, out):
        E = it.E; n = "left variables of an interval factor: "; w = E.fresh("w", U); keys, _, left = a[1]
        if no_exc(it, out, n + "no exception"): return
        E.prove(it.member_f(out.val, w) == it.member_f(left, w), n + "those given"); E.prove(it.same_keys_f(Lst(E, it.iter_segs(out.val)), lib.filter_nodes(it, Lst(E, keys.segs), lambda w: it.member_f(left, w))), n + "in the order of the variables")
