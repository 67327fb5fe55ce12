"""Lists and arrays of values (C04); deterministic functions and their tables (C15)."""
from .base import *
from .models import *
from .access import full_obs
DS, DF, CF = "bcause.factors.values.store:DiscreteStore", "bcause.factors.factor:DiscreteFactor", "bcause.factors.factor:ConditionalFactor"

def as_table(it, v, n):
    "a list or array of values as (axes, value at a valuation); flat: in row-major order of the axes"
    if isinstance(v, lib.FlatT): return v.t.axes, v.t.val, True
    if isinstance(v, Tensor): return v.axes, v.val, False
    if isinstance(v, Arr1): v = v.lst
    if isinstance(v, Lst) and len(v.segs) == 1 and isinstance(v.segs[0], Gen) and v.segs[0].base.sort == ASG: return v.segs[0].base.axes, it.asg_elem(v.segs[0]), True
    raise Unsupported(f"{n}values in another form")
@register
class ValuesList(Contract):
    key = DS + ".values_list"; props = ("C04", "C05"); cases = tuple(KINDS)
    def args(self, it, case): return dict(self=sym_store(it, case, "self")), None
    def call(self, it, fn, a): return it.getattr(a[0]["self"], "values_list")
    def post(self, it, case, a, out):
        E = it.E; st = a[0]["self"]; n = f"{case} values_list: "
        if no_exc(it, out, n + "no exception"): return
        axes, f, flat = as_table(it, out.val, n); X = it.valuation()
        E.record(n + "a flat list", flat and not isinstance(out.val, Arr1) and getattr(out.val, "kind", "list") == "list")
        E.prove(it.same_keys_f(it.keys(axes), it.keys(dom_of(it, st))), n + "row-major order of the domain"); E.prove(f(X) == sval(it, st, X), n + "the value at every assignment")
    def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"]], {})
@register
class ValuesArray(Contract):
    key = DF + ".values_array"; props = ("C04", "C05", "C15"); cases = tuple(f"{k}/{o}" for k in KINDS for o in ("own order", "given order"))
    def args(self, it, case):
        E = it.E; kind, o = case.split("/"); f = sym_factor(it, kind, "self"); a = dict(self=f); x = z3.Const("ox", U); order = None
        if o == "given order":
            b = names_base(it, "order"); order = a["var_order"] = Lst(E, [gen_of(E, b)], "list", inp="var_order argument")
            E.fact(z3.ForAll([x], b.mem(x) == is_var(it, f, x), patterns=[b.mem(x)]))
        return a, order
    def call(self, it, fn, a): return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; f = a[0]["self"]; n = f"values_array ({case}): "; order = a[1] or fkeys(it, f)
        if no_exc(it, out, n + "no exception"): return
        if isinstance(out.val, Tensor): t = out.val
        else: raise Unsupported("values in another form")
        X = it.valuation(); E.prove(it.same_keys_f(it.keys(t.axes), order), n + "one axis per variable, in the requested order"); E.prove(t.val(X) == fval(it, f, X), n + "the value at every assignment")
    def use(self, it, p): return it.run_func(it.get_func(self.key), [], dict(p))

# ---- functions
def sym_function(it, name="f", inp=True):
    """an arbitrary deterministic function: a domain, one variable on the left, a state of it for every assignment of the others"""
    E = it.E; dom = domain_dict(it, "dom_" + name); keys = it.keys(dom); x = E.fresh("left", U); E.require(it.member_f(keys, x))
    b = names_base(it, "right_" + name); w = z3.Const("rw", U); E.fact(z3.ForAll([w], b.mem(w) == And(it.member_f(keys, w), w != x), patterns=[b.mem(w)]))
    right = Lst(E, [gen_of(E, b)], "list", inp="right variables" if inp else None)
    rdom = Dct(E, [DGen(s.base, s.c, z3.simplify(And(s.g, s.c != x)), s.val) for s in dom.segs], ordered=True); rk = it.keys(rdom); sym = ("fun", name, E.birth())
    def val(X):
        v = it.app(sym, [], X, lambda w: it.member_f(rk, w), U); E.lemma(st_in(x, v)); return v
    st = store_like(it, rdom, Tensor(E, rdom.snap(), val)); f = function_obj(it, dom, right, st)
    if inp:
        mark(it, st, name); dom.inp = f"domain of {name}"; f.inp = name
    f.left, f.val = x, val; return f
def function_obj(it, dom, right, st):
    E = it.E; c = it.get_func(DET); o = Obj(E, c); o.attrs.update(_domain=dom, _variables=Lst(E, it.keys(dom).segs, "list"), _right_vars=right, vtype="numpy", _store=st)
    def builder(**kw):
        if "left_vars" not in kw and "right_vars" not in kw: kw["left_vars"] = it.getattr(o, "left_vars")
        return it.instantiate(c, [], dict(kw, vtype="numpy"))
    o.attrs["builder"] = Native("builder", builder); return o
def fun_val(it, f, X, positions=False):
    "state that a function object gives"
    d = fstore(f).attrs["_data"]
    if isinstance(d, Tensor):
        t = z3.simplify(d.val(X))
        if t.sort() == U or positions: return t
        if z3.is_int_value(t) or z3.is_rational_value(t) and t.as_fraction().denominator == 1: return it.uterm(int(str(t)))
    raise Unsupported("values of a function in another form")
def prove_function(it, f, x, n):
    "representation invariant of a function: x alone on the left, a table over the other variables"
    E = it.E; w = E.fresh("w", U); st = fstore(f); prove_inv(it, st, n); keys = fkeys(it, f)
    E.prove(is_left(it, f, w) == (w == x), n + "one variable on the left"); E.prove(Implies(is_right(it, f, w), is_var(it, f, w)), n + "right variables are variables of the function")
    E.prove(it.same_keys_f(Lst(E, f.attrs["_variables"].segs), keys), n + "variables are those of the domain")
    E.prove(it.same_keys_f(it.keys(dom_of(it, st)), it.keys(filtered(it, fdom(it, f), lambda y: y != x))), n + "values over the right variables, in the order of the domain")

@register
class FunctionInit(Contract):
    key = DET + ".__init__"; props = ("C15", "C06", "C05"); cases = tuple(f"{v}/{s}" for v in ("flat", "array") for s in ("left", "left name", "right", "both", "none"))
    def args(self, it, case):
        form, side = case.split("/"); E = it.E; dom = domain_dict(it, "dom", inp="domain argument"); keys = it.keys(dom); x = E.fresh("left", U); E.require(it.member_f(keys, x)); a = dict(domain=dom, vtype=None)
        rdom = Dct(E, [DGen(s.base, s.c, z3.simplify(And(s.g, s.c != x)), s.val) for s in dom.segs], ordered=True); rk = it.keys(rdom); sym = ("fun", "values", E.birth())
        if side == "none": E.require(Not(it.nonempty_f(rk.segs)))
        t = Tensor(E, rdom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(rk, w), U), inp="values argument"); a["values"] = t if form == "array" else lib.FlatT(t, "list")
        if side in ("right", "both"):
            b = names_base(it, "right"); a["right_vars"] = Lst(E, [gen_of(E, b)], "list", inp="right_vars argument")
        if side in ("left", "both"): a["left_vars"] = Lst(E, [One(S(x, "name"))], "list", inp="left_vars argument")
        if side == "left name": a["left_vars"] = S(x, "name")
        w = z3.Const("rw", U)
        if side == "right": E.fact(z3.ForAll([w], b.mem(w) == And(it.member_f(keys, w), w != x), patterns=[b.mem(w)]))
        return a, (Obj(E, it.get_func(DET)), x, t)
    def call(self, it, fn, a): it.call_func(fn, [a[1][0]], dict(a[0])); return a[1][0]
    def post(self, it, case, a, out):
        E = it.E; p, (o, x, t) = a; n = f"DeterministicFactor({case}): "; y = E.fresh("y", U); keys = it.keys(p["domain"])
        ok = z3.BoolVal(True) if "both" not in case else z3.ForAll([y], it.member_f(p["right_vars"], y) == And(it.member_f(keys, y), y != x))
        if out.kind == "raise": E.prove(Not(ok), n + "no exception when the sides agree with each other and the domain", note=str(out.val)); return
        E.prove(ok, n + "sides that contradict each other or the domain are rejected"); X = it.valuation()
        E.prove(fun_val(it, o, X) == t.val(X), n + "the state given for every assignment of the right variables"); prove_function(it, o, x, n); prove_dom(it, o, keys, n)
        E.record(n + "the domain is another object", o.attrs["_domain"] is not p["domain"]); E.record(n + "values are copied", fstore(o).attrs["_data"].buf != t.buf)
        bl = it.getattr(o, "left_vars"); E.prove(it.member_f(bl, y) == (y == x), n + "left_vars is the left variable")
    def use(self, it, p): it.run_func(it.get_func(self.key), [], dict(p))
def prove_dom(it, f, keys, n):
    E = it.E; E.prove(it.same_keys_f(fkeys(it, f), keys), n + "variables and their order"); w = E.fresh("w", U); dom = fdom(it, f)
    E.explore(lambda: (E.require(it.member_f(keys, w)), E.prove(zb(it.seq_eq(it.dget(dom, S(w, "name")), it.states(w))), n + "the domain maps the variables to their states")))
@register
class Eval(Contract):
    key = DET + ".eval"; props = ("C15", "C05")
    def args(self, it, case):
        f = sym_function(it); return dict(self=f, observation=full_obs(it, fkeys(it, f))), None
    def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], {"**": [a[0]["observation"]]})
    def post(self, it, case, a, out):
        E = it.E; f, obs = a[0]["self"], a[0]["observation"]; n = "eval: "
        if no_exc(it, out, n + "no exception"): return
        X = obs_shift(it, obs, it.valuation()); E.prove(zb(it.truth_f(out.val)) == (f.val(X) == it.lam_at(X, f.left)), n + "whether the left variable has the state that the function gives")
    def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"]], {"**": [p["observation"]]})
class ToMult(ToMultinomial.__class__ if not isinstance(ToMultinomial, type) else ToMultinomial):
    "the table of a function: probability one for the state that the function gives, zero for the others"
    key = DET + ".to_multinomial"; trusted = False; props = ("C15", "C05", "C14"); cases = ("float", "int", "default")
    def args(self, it, case):
        f = sym_function(it); return (dict(self=f) if case == "default" else dict(self=f, as_int=case == "int")), None
    def call(self, it, fn, a): return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; f = a[0]["self"]; n = f"to_multinomial ({case}): "
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_factor(it, r, "numpy", n): return
        X = it.valuation(); E.prove(fval(it, r, X) == If(f.val(X) == it.lam_at(X, f.left), z3.RealVal(1), z3.RealVal(0)), n + "one for the state that the function gives, zero for the others")
        prove_factor(it, r, n); prove_domain(it, fstore(r), fkeys(it, f).segs, n); prove_right(it, r, lambda w: w != f.left, n)
register(ToMult)
@register
class FunctionConstant(Contract):
    key = DET + ".constant"; props = ("C15", "C10", "C05")
    def args(self, it, case): return dict(self=sym_function(it), left_value=S(it.E.fresh("value", U), "state")), None
    def call(self, it, fn, a): return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; f, v = a[0]["self"], a[0]["left_value"].t; n = "constant of a function: "; ok = st_in(f.left, v)
        if out.kind == "raise": E.prove(Not(ok), n + "an exception only for a state outside the domain", note=str(out.val)); return
        E.prove(ok, n + "a state outside the domain is rejected"); r = out.val; X = it.valuation()
        if not (isinstance(r, Obj) and r.cls.name == "DeterministicFactor"): E.record(n + "returns a function", False); return
        E.prove(fun_val(it, r, X) == v, n + "the state"); prove_function(it, r, f.left, n); prove_dom(it, r, it.tup(S(f.left, "name")), n)
    def use(self, it, p): return it.run_func(it.get_func(self.key), [], dict(p))
@register
class ToDeterministic(Contract):
    "the function of a degenerate table: the index of the state of probability one"
    key = F + ".to_deterministic"; props = ("C15", "C05"); cases = tuple(KINDS)
    def args(self, it, case): return dict(self=sym_factor(it, case, "self")), None
    def call(self, it, fn, a): return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; f = a[0]["self"]; n = f"to_deterministic ({case}): "; x, y, s = E.fresh("x", U), E.fresh("y", U), E.fresh("s", U)
        single = z3.ForAll([y], is_left(it, f, y) == (y == x))
        if out.kind == "raise": E.prove(Not(single), n + "an exception only for tables with another number of left variables", note=str(out.val)); return
        r = out.val
        if not (isinstance(r, Obj) and r.cls.name == "DeterministicFactor"): E.record(n + "returns a function", False); return
        E.require(single); E.require(is_left(it, f, x)); X = it.valuation(); E.require(st_in(x, s)); at = lambda t: fval(it, f, If(E.lam == x, t, X)); n0 = len(it.argmaxes); got = fun_val(it, r, X, True)
        # the state s has probability one in this configuration, the others zero; the maxima taken are at least the value of s
        E.require(at(s) == 1)
        for lab, Y, m, body in it.argmaxes:
            E.lemma(Implies(st_in(lab, s), body(s) <= body(m))); E.require(Implies(And(m != s, st_in(x, m)), at(m) == 0))
        E.prove(got == it.pos(it.states(x), s).t if got.sort() == I else z3.BoolVal(False), n + "the index of the state of probability one")
        prove_function(it, r, x, n); prove_dom(it, r, fkeys(it, f), n)
    def use(self, it, p): raise Unsupported("to_deterministic")
