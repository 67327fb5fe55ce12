"""Contracts of MultinomialFactor (and its bases) on tree and array storages."""
import ast
from .base import *
from .trees import observation, obs_shift, obs_in_domain, need_wf
from .stores import *
F = "bcause.factors.mulitnomial:MultinomialFactor"
VT = {"numpy": "numpy", "treedict": "tree"}
VTN = {"numpy": "numpy", "tree": "treedict"}

# ---- views of a factor
def fstore(f): return f.attrs["_store"]
def fdom(it, f): return f.attrs["_domain"] if "_domain" in f.attrs else dom_of(it, fstore(f))      # a deterministic function keeps its own domain
def fkeys(it, f): return it.keys(fdom(it, f))
def fval(it, f, X): return sval(it, fstore(f), X)
def fright(it, f): return f.attrs["_right_vars"]
def is_right(it, f, w): return it.member_f(fright(it, f), w)
def is_var(it, f, w): return it.member_f(fkeys(it, f), w)
def is_left(it, f, w): return And(is_var(it, f, w), Not(is_right(it, f, w)))
def make_factor(it, kind, dom, valf, right, inp=None):
    "a factor known by its values and its right variables (a list)"
    return factor_obj(it, kind, result_store(it, kind, dom, valf), right, inp)
def factor_obj(it, kind, store, right, inp=None):
    c = it.get_func(F); o = Obj(it.E, c); vt = VTN[kind]
    o.attrs.update(_store=store, _variables=Lst(it.E, it.keys(dom_of(it, store)).segs, "list"), _right_vars=right, vtype=vt)
    def builder(**kw):
        star = kw.pop("**", [])
        if star: raise Unsupported("builder")
        if "left_vars" not in kw and "right_vars" not in kw: kw["left_vars"] = it.getattr(o, "left_vars")
        return it.instantiate(c, [], dict(kw, vtype=vt))
    o.attrs["builder"] = Native("builder", builder)
    if inp:
        mark(it, store, inp); o.inp = inp
    return o
def subset_list(it, name, keys, kind="list", inp=None):
    "a list of some of the keys, in any order"
    b = names_base(it, name); l = Lst(it.E, [gen_of(it.E, b)], kind, inp=inp); w = z3.Const("w", U)
    it.E.lemma(z3.ForAll([w], Implies(b.mem(w), it.member_f(keys, w)), patterns=[b.mem(w)]))
    return l
def sym_factor(it, kind, name, dom=None, inp=True):
    st = sym_store(it, kind, name, dom, inp)
    return factor_obj(it, kind, st, subset_list(it, "right_" + name, it.keys(dom_of(it, st)), inp=f"right variables of {name}" if inp else None), name if inp else None)
def is_factor(it, r, kind, n):
    ok = isinstance(r, Obj) and r.cls.name == "MultinomialFactor" and isinstance(r.attrs.get("_store"), Obj) and r.attrs["_store"].cls.name == KINDS[kind][0].split(":")[1]
    it.E.record(n + "returns a factor in the same storage", bool(ok)); return ok
def prove_factor(it, r, n):
    "representation invariant of a factor"
    E = it.E; prove_inv(it, fstore(r), n); vs = r.attrs["_variables"]; w = E.fresh("w", U)
    E.prove(it.same_keys_f(Lst(E, vs.segs), fkeys(it, r)), n + "variables are those of the domain")
    E.prove(Implies(is_right(it, r, w), is_var(it, r, w)), n + "right variables are variables of the factor")
    E.record(n + "vtype names the storage", r.attrs.get("vtype") == VTN[kind_of(it, fstore(r))])
def prove_right(it, r, pred, n):
    w = it.E.fresh("w", U)
    it.E.prove(is_right(it, r, w) == And(is_var(it, r, w), pred(w)), n + "sides of the variables")
def other_bufs(it, r, others, n):
    no_alias(it, fstore(r), [fstore(o) for o in others], n)

@register
class CheckDomain(Contract):
    key = "bcause.factors.factor:DiscreteFactor._check_domain"; trusted = True; why_trusted = "accepts the domains the properties quantify over: names mapped to non-empty lists of states of one type"
    def use(self, it, p): it.E.assumptions.add("domains map variable names to lists of distinct states of one type"); return None

def side_lists(it, p, keys):
    "right variables that the constructor sets, or an exception"
    E = it.E; L, Rr = p.get("left_vars"), p.get("right_vars")
    as_l = lambda v: it.tup(v) if isinstance(v, str) or isinstance(v, S) else v
    L, Rr = (None if x is None else Lst(E, it.iter_segs(as_l(x)), "list") for x in (L, Rr))
    if L is None and Rr is None: return Lst(E, [])
    if Rr is None: return Lst(E, [Gen(s.base, s.c, z3.simplify(And(s.g, Not(it.member_f(L, s.c))))) if isinstance(s, Gen) else s for s in keys.segs if isinstance(s, Gen) or not E.decide(it.member_f(L, it.uterm(s.v)))])
    w = E.fresh("w", U)
    if L is None: ok = z3.ForAll([w], Implies(it.member_f(Rr, w), it.member_f(keys, w)))
    else: ok = z3.ForAll([w], And(Or(it.member_f(L, w), it.member_f(Rr, w)) == it.member_f(keys, w), Not(And(it.member_f(L, w), it.member_f(Rr, w)))))
    if E.valid(ok) is not True and not E.decide(ok): raise PyRaise("ValueError", "sides")
    return Rr
def values_fn(it, v, dom):
    "function that gives the value at a valuation, for the values passed to a constructor"
    E = it.E; keys = it.keys(dom)
    t = v.t if isinstance(v, lib.FlatT) else v
    if isinstance(t, Tensor):
        if E.valid(it.same_keys_f(it.keys(t.axes), keys)) is not True:
            if t.axes.segs == []:
                if isinstance(v, Tensor): return t.val
            raise Unsupported("array with axes other than the domain")
        return t.val
    if isinstance(v, TreeVal):
        need_wf(it, v, "constructor"); w = E.fresh("w", U)
        if E.valid(Implies(occ(v.t, w), it.member_f(keys, w))) is not True: raise Unsupported("tree with other variables")
        return lambda X: it.tree_eval(v, X)
    if isinstance(v, (int, float, Fraction_)) or isinstance(v, S) and v.t.sort() in (I, R): return lambda X, y=real(v): y
    if isinstance(v, Lst) and v.concrete and len(v.items) == 1 and E.valid(Not(it.nonempty_f(keys.segs))) is True: return lambda X, y=real(lib.as_number(it, v.items[0])): y
    if isinstance(v, Lst): t = lib.list_to_tensor(it, v, it.to_list(lib.shape(it, Tensor(E, dom, None)), "tuple")); return t.val
    raise Unsupported(f"values {v!r}")
from fractions import Fraction as Fraction_

@register
class Init(Contract):
    key = F + ".__init__"; props = ("C04", "C06", "C05", "C01"); cost = 3
    cases = tuple(f"{k}/{v}/right" for k in VT for v in ("array", "flat", "scalar")) + ("treedict/tree/right",) + tuple(f"numpy/array/{s}" for s in ("none", "left", "both", "left name", "right name")) + ("default/array/none",)
    def args(self, it, case):
        kind, form, sides = case.split("/"); E = it.E
        dom = domain_dict(it, "dom"); dom.inp = "domain argument"; keys = it.keys(dom); vt = None if kind == "default" else kind; kd = VT.get(kind, "numpy")
        sym = ("tab", "values", E.birth()); t = Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)), inp="values argument")
        if form == "array": v, f = t, t.val
        elif form == "flat": v, f = lib.FlatT(t, "list"), t.val
        elif form == "scalar": y = E.fresh("y", R); v, f = S(y), lambda X: y
        else:
            st = sym_store(it, "tree", "src", dom, inp=False); v = st.attrs["_data"]; f = lambda X: it.tree_eval(v, X); dom.inp = "domain argument"
        a = dict(domain=dom, values=v, vtype=vt); w = z3.Const("w", U); x = E.fresh("x", U)
        if sides in ("right", "both"):
            b = names_base(it, "right"); a["right_vars"] = Lst(E, [gen_of(E, b)], "list", inp="right_vars argument")
        if sides in ("left", "both"):
            b = names_base(it, "left"); a["left_vars"] = Lst(E, [gen_of(E, b)], "list", inp="left_vars argument")
        if sides == "left name": a["left_vars"] = S(x, "name")
        if sides == "right name": a["right_vars"] = S(x, "name")
        self_ = Obj(E, it.get_func(F))
        return a, (self_, kd, f, sides, x, t)
    def call(self, it, fn, a): it.call_func(fn, [a[1][0]], dict(a[0])); return a[1][0]
    def post(self, it, case, a, out):
        E = it.E; p, (o, kd, f, sides, x, t) = a; n = f"MultinomialFactor({case}): "; keys = it.keys(p["domain"]); w = E.fresh("w", U)
        L, Rr = p.get("left_vars"), p.get("right_vars")
        inl = (lambda y: y == x) if sides == "left name" else (lambda y: it.member_f(L, y)) if L is not None else None
        inr = (lambda y: y == x) if sides == "right name" else (lambda y: it.member_f(Rr, y)) if Rr is not None else None
        y = E.fresh("y", U)
        if sides == "both": ok = z3.ForAll([y], And(Or(inl(y), inr(y)) == it.member_f(keys, y), Not(And(inl(y), inr(y)))))
        elif inr is not None: ok = z3.ForAll([y], Implies(inr(y), it.member_f(keys, y)))
        else: ok = z3.BoolVal(True)
        if out.kind == "raise":
            E.prove(Not(ok), n + "no exception when the sides agree with each other and the domain"); return
        E.prove(ok, n + "sides that contradict each other or the domain are rejected")
        if not is_factor(it, o, kd, n): return
        X = it.valuation()
        E.prove(fval(it, o, X) == f(X), n + "value at every assignment is the one given for it")
        prove_domain(it, fstore(o), keys.segs, n); prove_factor(it, o, n)
        if inr is not None: prove_right(it, o, inr, n)
        elif inl is not None: prove_right(it, o, lambda y: Not(inl(y)), n)
        else: prove_right(it, o, lambda y: z3.BoolVal(False), n)
        d = fstore(o).attrs["_data"]
        if isinstance(d, Tensor): E.record(n + "values are copied", d.buf != t.buf)
        lv = it.getattr(o, "left_vars"); E.prove(it.member_f(lv, w) == And(it.member_f(keys, w), Not(is_right(it, o, w))), n + "left and right variables partition the variables")
    def use(self, it, p):
        vt = p.get("vtype"); E = it.E
        if vt is None: vt = it.getattr(it.get_func("bcause.factors.values.store:DataStore"), "DEFAULT_STORE")
        if vt not in VT: raise Unsupported(f"storage {vt}")
        dom = p["domain"]; states_only(it, dom, "MultinomialFactor"); kind = VT[vt]
        dom2 = Dct(E, list(dom.segs), ordered=True, ovr=dom.ovr)
        f = values_fn(it, p["values"], dom2); right = side_lists(it, p, it.keys(dom2)); o = p["self"]
        r = make_factor(it, kind, dom2, f, right); o.attrs.update(r.attrs)
        def builder(**kw):
            if "left_vars" not in kw and "right_vars" not in kw: kw["left_vars"] = it.getattr(o, "left_vars")
            return it.instantiate(o.cls, [], dict(kw, vtype=vt))
        o.attrs["builder"] = Native("builder", builder)
        return None

@register
class Builder(Contract):
    "the builder of a factor makes factors of the same storage; without sides, the left variables are those of the factor"
    key = F + ".__init__.<locals>.builder"; props = ("C06", "C01"); cases = tuple(f"{k}/{s}" for k in VT for s in ("none", "right")); cost = 2
    def fn(self, it): return None
    def args(self, it, case):
        k, s = case.split("/"); E = it.E
        d1 = domain_dict(it, "dom1"); k1 = it.keys(d1); s1 = ("tab", "v1", E.birth())
        d2 = domain_dict(it, "dom2"); k2 = it.keys(d2); s2 = ("tab", "v2", E.birth())
        t1, t2 = Tensor(E, d1.snap(), lambda X: it.app(s1, [], X, lambda w: it.member_f(k1, w))), Tensor(E, d2.snap(), lambda X: it.app(s2, [], X, lambda w: it.member_f(k2, w)))
        r1 = subset_list(it, "right1", k1); r2 = subset_list(it, "right2", k2)
        return dict(domain=d2, values=t2, **(dict(right_vars=r2) if s == "right" else {})), (dict(domain=d1, values=t1, right_vars=r1, vtype=k), VT[k])
    def call(self, it, fn, a):
        o = Obj(it.E, it.get_func(F)); init = it.get_func(self.key.split(".<locals>")[0])
        it.depth = 1; it.run_func(init, [o], dict(a[1][0])); self.o = o
        b = o.attrs["builder"]; it.verifying = self.key
        return it.run_func(b, [], dict(a[0])) if isinstance(b, Func) else it.call(b, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; n = f"MultinomialFactor.builder({case}): "; p = a[0]; kd = a[1][1]; o = self.o
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_factor(it, r, kd, n): return
        X = it.valuation(); E.prove(fval(it, r, X) == p["values"].val(X), n + "values"); prove_domain(it, fstore(r), it.keys(p["domain"]).segs, n); prove_factor(it, r, n)
        if "right_vars" in p: prove_right(it, r, lambda y: it.member_f(p["right_vars"], y), n)
        else: prove_right(it, r, lambda y: Not(is_left(it, o, y)), n)
    def use(self, it, p): raise Unsupported("builder called on an object under construction")

def method(fn):
    class C(Contract): pass
    return C
def first_case(case): return VT[case.split("/")[0]]
for nm, op in (("multiply", ast.Mult()), ("addition", ast.Add()), ("subtract", ast.Sub()), ("divide", ast.Div())):
    class BinF(Contract):
        key = f"{F}.{nm}"; props = ("C01", "C05", "C06"); name, op_ = nm, op; cases = tuple(f"{k}/{o}" for k in VT for o in ("factor", "scalar")); cost = 2
        def args(self, it, case):
            k, o = case.split("/"); f = sym_factor(it, VT[k], "self")
            g = sym_factor(it, VT[k], "other") if o == "factor" else S(it.E.fresh("scalar", R))
            return dict(self=f, other=g), None
        def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], dict(other=a[0]["other"]))
        def spec(self, it, f, g, X): return lib.num_op(it, self.op_, fval(it, f, X) if isinstance(f, Obj) else real(f), fval(it, g, X) if isinstance(g, Obj) else real(g))
        def right(self, it, f, g):
            g_left = (lambda w: is_left(it, g, w)) if isinstance(g, Obj) else lambda w: z3.BoolVal(False)
            g_var = (lambda w: is_var(it, g, w)) if isinstance(g, Obj) else lambda w: z3.BoolVal(False)
            if self.name == "divide": return lambda w: Or(is_right(it, f, w), g_var(w))
            return lambda w: And(Not(is_left(it, f, w)), Not(g_left(w)))
        def newdom(self, it, f, g): return union_dom(it, fdom(it, f), fdom(it, g)) if isinstance(g, Obj) else fdom(it, f)
        def post(self, it, case, a, out):
            E = it.E; f, g = a[0]["self"], a[0]["other"]; kd = first_case(case); n = f"factor {self.name} ({case}): "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_factor(it, r, kd, n): return
            X = it.valuation(); E.prove(fval(it, r, X) == self.spec(it, f, g, X), n + "value at every joint assignment")
            prove_domain(it, fstore(r), it.keys(self.newdom(it, f, g)).segs, n); prove_factor(it, r, n); prove_right(it, r, self.right(it, f, g), n)
            other_bufs(it, r, [x for x in (f, g) if isinstance(x, Obj)], n)
        def use(self, it, p):
            f, g = p["self"], p["other"]; E = it.E
            if isinstance(g, Obj) and g.cls.name != "MultinomialFactor": raise Unsupported("operand")
            if not isinstance(g, Obj): g = lib.as_number(it, g); real(g)
            elif kind_of(it, fstore(f)) != kind_of(it, fstore(g)): raise PyRaise("ValueError", "storages")
            dom = self.newdom(it, f, g); pr = self.right(it, f, g)
            right = Lst(E, it.keys(filtered(it, dom, pr)).segs, "list")
            return make_factor(it, kind_of(it, fstore(f)), dom, memo_ev(lambda X: self.spec(it, f, g, X)), right)
    register(BinF)
for nm, kindop in (("marginalize", "sum"), ("maxmarginalize", "max")):
    class MargF(Contract):
        key = f"{F}.{nm}"; props = ("C02", "C05", "C06"); name, opk = nm, kindop; cases = tuple(VT)
        def args(self, it, case):
            f = sym_factor(it, VT[case], "self"); vs = subset_list(it, "vars", fkeys(it, f), "tuple", inp="vars_remove")
            return dict(self=f, vars_remove=vs), None
        def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"], *a[0]["vars_remove"].segs], {})
        def post(self, it, case, a, out):
            E = it.E; f, vs = a[0]["self"], a[0]["vars_remove"]; n = f"factor {self.name} ({case}): "; P = lambda w: it.member_f(vs, w)
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_factor(it, r, VT[case], n): return
            X = it.valuation(); E.prove(fval(it, r, X) == it.agg_vars(self.opk, P, lambda Y: fval(it, f, Y), X), n + "value is the aggregate over the removed variables")
            prove_domain(it, fstore(r), it.keys(filtered(it, fdom(it, f), lambda w: Not(P(w)))).segs, n); prove_factor(it, r, n); prove_right(it, r, lambda w: is_right(it, f, w), n)
        def use(self, it, p):
            f, vs = p["self"], p["vars_remove"]; E = it.E; vs = Lst(E, it.iter_segs(vs)); P = lambda w: z3.simplify(it.member_f(vs, w))
            w = E.fresh("w", U)
            if E.valid(z3.ForAll([w], Implies(P(w), is_var(it, f, w)))) is not True: raise Unsupported("marginalize: variables that the factor may lack")
            dom = filtered(it, fdom(it, f), lambda w: Not(P(w)))
            return make_factor(it, kind_of(it, fstore(f)), dom, memo_ev(lambda X: it.agg_vars(self.opk, P, lambda Y: fval(it, f, Y), X)), Lst(E, it.keys(filtered(it, dom, lambda w: is_right(it, f, w))).segs, "list"))
    register(MargF)
@register
class RestrF(Contract):
    key = f"{F}.restrict"; props = ("C03", "C05", "C06"); cases = tuple(VT)
    def args(self, it, case): return dict(self=sym_factor(it, VT[case], "self"), observation=observation(it)), None
    def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], {"**": [a[0]["observation"]]})
    def post(self, it, case, a, out):
        E = it.E; f, obs = a[0]["self"], a[0]["observation"]; n = f"factor restrict ({case}): "
        good = obs_in_domain(it, obs, lambda w: is_var(it, f, w))
        if out.kind == "raise": E.prove(Not(good), n + "no exception when the observed states are in the domain"); return
        r = out.val
        if not is_factor(it, r, VT[case], n): return
        if case == "numpy": E.prove(good, n + "a state outside of the domain is rejected")
        else: E.require(good)
        X = it.valuation(); E.prove(fval(it, r, X) == fval(it, f, obs_shift(it, obs, X)), n + "value is that of the factor under the observation")
        prove_domain(it, fstore(r), it.keys(filtered(it, fdom(it, f), lambda w: Not(it.has_key(obs, S(w))))).segs, n); prove_factor(it, r, n); prove_right(it, r, lambda w: is_right(it, f, w), n)
    def use(self, it, p):
        E = it.E; f, obs = p["self"], p["observation"].snap()
        for s in obs.segs:
            if isinstance(s, DOne) and not isinstance(s.v, (S, str, int)): raise Unsupported("observation of several states")
        good = obs_in_domain(it, obs, lambda w: is_var(it, f, w))
        if E.valid(good) is not True and not E.decide(good): raise PyRaise("IndexError", "state outside of the domain")
        dom = filtered(it, fdom(it, f), lambda w: Not(it.has_key(obs, S(w))))
        return make_factor(it, kind_of(it, fstore(f)), dom, memo_ev(lambda X: fval(it, f, obs_shift(it, obs, X))), Lst(E, it.keys(filtered(it, dom, lambda w: is_right(it, f, w))).segs, "list"))

# ---- operators: the same obligations as the named operations, with a scalar on either side
SYM = {"mul": "multiply", "add": "addition", "sub": "subtract", "truediv": "divide"}
AOP = {"mul": ast.Mult(), "add": ast.Add(), "sub": ast.Sub(), "truediv": ast.Div()}
for nm in SYM:
    class Oper(Contract):
        key = f"{F}.__{nm}__"; props = ("C01", "C05", "C06"); short = nm; name, op_ = SYM[nm], AOP[nm]; cases = tuple(f"{k}/{o}" for k in VT for o in ("factor", "scalar")); swap = False
        args = BinF.args; spec = BinF.spec; right = BinF.right; newdom = BinF.newdom
        def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"], a[0]["other"]], {})
        def post(self, it, case, a, out):
            E = it.E; f, g = a[0]["self"], a[0]["other"]; kd = first_case(case); n = f"factor {self.key.split('.')[-1]} ({case}): "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_factor(it, r, kd, n): return
            X = it.valuation(); v = self.spec(it, g, f, X) if self.swap else self.spec(it, f, g, X)
            E.prove(fval(it, r, X) == v, n + "value at every joint assignment")
            prove_domain(it, fstore(r), it.keys(self.newdom(it, f, g)).segs, n); prove_factor(it, r, n)
            if self.swap and self.name == "divide": prove_right(it, r, lambda w: is_var(it, f, w), n)
            else: prove_right(it, r, self.right(it, f, g), n)
            other_bufs(it, r, [x for x in (f, g) if isinstance(x, Obj)], n)
        def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"], p["other"]], {})
    class ROper(Oper):
        key = f"{F}.__r{nm}__"; swap = True; cases = tuple(f"{k}/scalar" for k in VT)
    register(Oper); register(ROper)
for nm, base_ in (("pow", "marginalize"), ("xor", "maxmarginalize")):
    class Rem(type(REG[f"{F}.{base_}"])):
        key = f"{F}.__{nm}__"; cases = tuple(f"{k}/{o}" for k in VT for o in ("name", "list")); nm_ = nm
        def args(self, it, case):
            k, o = case.split("/"); f = sym_factor(it, VT[k], "self")
            if o == "list": vs = subset_list(it, "vars", fkeys(it, f), "list", inp="vars_remove")
            else:
                x = it.E.fresh("x", U); it.E.require(is_var(it, f, x)); vs = Lst(it.E, [One(S(x, "name"))])
            return dict(self=f, vars_remove=vs), o
        def call(self, it, fn, a):
            v = a[0]["vars_remove"]; return it.call_func(fn, [a[0]["self"], v if a[1] == "list" else v.items[0]], {})
        def post(self, it, case, a, out):
            k = case.split("/")[0]; return super(type(self), self).post(it, k, a, out)
        def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"], p["vars_remove"]], {})
    register(Rem)
