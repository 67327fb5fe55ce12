"""Reading and writing single values, copies and constructors of the stores."""
import ast
from .base import *
from .trees import *
from .stores import *
from .factors import *

def nested(it, outer, name, vars):
    "a function defined inside another one, closed over the given variables"
    f = it.get_func(outer)
    from ..interp import Env
    for n in ast.walk(f.node):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            env = Env(it.E, dict(vars), f.env if not hasattr(f.env, "cls") else f.env.parent, f.module, f)
            g = it.make_func(n, env, name); env.vars[name] = g; return g
    raise Unsupported(f"{outer} has no inner function {name}")
def tree_of(it, v, n):
    "a node under construction as a tree: it must be well formed"
    if not isinstance(v, Dct): return v
    E = it.E; it.prove_tree_wf(v, n + "argument is a well-formed tree"); w = z3.Const("w", U); n0 = E.n
    var = it.uterm(it.dget(v, "var")); ch = it.dget(v, "children"); out = [w == var]
    for s in ch.segs:      # an upper bound of the variables that occur
        c = E.fresh("c", U); k = s.k if isinstance(s, DOne) else S(c, "state"); n1 = E.n
        g = z3.simplify(E.merge_bool(lambda: (E.require(it.has_key(ch, k)), it.tree_occ(it.dget(ch, k), w))[1]))
        g = z3.simplify(z3.substitute(g, *[(z3.simplify(h), z3.BoolVal(True)) for h in (zb(it.has_key(ch, k)),) if not z3.is_true(h)])); it.no_aux(g, w, n0); out.append(g)
    f = z3.simplify(disj(out))
    return tree_result(it, lambda X: it.tree_eval(v, X), lambda y: z3.substitute(f, (w, y)), "node")
def agrees(it, obs, X, over=None):
    "formula: the valuation has the observed states"
    E = it.E
    if obs.concrete: return conj([it.lam_at(X, it.uterm(s.k)) == it.uterm(s.v) for s in obs.segs])
    w = E.fresh("w", U)
    f = E.merge_bool(lambda: (E.require(it.has_key(obs, S(w))), it.lam_at(X, w) == it.uterm(it.dget(obs, S(w, "name"))))[1])
    return z3.ForAll([w], Implies(And(it.has_key(obs, S(w)), over(w) if over else True), f))
TS, NS_ = KINDS["tree"][0], KINDS["numpy"][0]

@register
class ModifyDict(Contract):
    key = TS + ".set_value.<locals>.modify_dict"; props = ("C04", "C05")
    def fn(self, it): return None
    def args(self, it, case):
        E = it.E; st = sym_store(it, "tree", "self"); data = tree_in(it, "data"); obs = observation(it); y = E.fresh("y", R); keys = it.keys(dom_of(it, st)); w = E.fresh("w", U)
        E.require(z3.ForAll([w], Implies(it.has_key(obs, S(w)), it.member_f(keys, w)))); E.require(obs_in_domain(it, obs, lambda w: z3.BoolVal(True)))
        self.f = nested(it, TS + ".set_value", "modify_dict", dict(self=st))
        return dict(data=data, observation=obs, value=S(y)), st
    def call(self, it, fn, a): return it.call_func(self.f, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; d, obs, y = a[0]["data"], a[0]["observation"], a[0]["value"]; n = "tree set_value, modify_dict: "
        if no_exc(it, out, n + "no exception"): return
        r = as_tree(it, out.val); X = it.valuation(); w = E.fresh("w", U)
        E.prove(it.tree_eval(r, X) == If(agrees(it, obs, X), y.t, it.tree_eval(d, X)), n + "the new value where the observation holds, the old one elsewhere")
        E.prove(Implies(it.tree_occ(r, w), Or(occ(d.t, w), it.has_key(obs, S(w)))), n + "only variables of the tree and the observation")
        it.prove_tree_wf(r, n + "result is a well-formed tree")
    def use(self, it, p):
        E = it.E; d, obs, y = as_tree(it, p["data"]), p["observation"].snap(), real(lib.as_number(it, p["value"])); n = "tree set_value, modify_dict, recursive call: "
        E.assumptions.add("partial correctness: termination of loops and recursion is not proved")
        if E.valid(obs_in_domain(it, obs, lambda w: z3.BoolVal(True))) is not True: raise Unsupported("modify_dict: states outside of the domain")
        d = tree_of(it, d, n); need_wf(it, d, "modify_dict"); o = occ_pred(it, d)
        return tree_result(it, lambda X: If(agrees(it, obs, X), y, it.tree_eval(d, X)), lambda w: Or(o(w), it.has_key(obs, S(w))), "mod")

def full_obs(it, keys, full=True, within=False):
    E = it.E; obs = observation(it); w = E.fresh("w", U)
    if full: E.require(z3.ForAll([w], Implies(it.member_f(keys, w), it.has_key(obs, S(w)))))
    if within: E.require(z3.ForAll([w], Implies(it.has_key(obs, S(w)), it.member_f(keys, w))))
    E.require(obs_in_domain(it, obs, lambda w: it.member_f(keys, w)))
    return obs
for kind in KINDS:
    class Get(Contract):
        key = KINDS[kind][0] + ".get_value"; props = ("C04", "C05"); kind_ = kind
        def args(self, it, case):
            st = sym_store(it, self.kind_, "self"); return dict(self=st, observation=full_obs(it, it.keys(dom_of(it, st)))), None
        def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], {"**": [a[0]["observation"]]})
        def post(self, it, case, a, out):
            E = it.E; st, obs = a[0]["self"], a[0]["observation"]; n = f"{self.kind_} get_value: "
            if no_exc(it, out, n + "no exception"): return
            r = out.val; X = it.valuation()
            if isinstance(r, TreeVal): it.open_tree(r.t); E.prove(isleaf(r.t), n + "a single value"); v = it.tree_eval(r, X)
            else: v = real(lib.as_number(it, r))
            E.prove(v == sval(it, st, obs_shift(it, obs, X)), n + "the value at the observed assignment")
        def use(self, it, p):
            E = it.E; st, obs = p["self"], p["observation"].snap(); keys = it.keys(dom_of(it, st)); w = E.fresh("w", U)
            for s in obs.segs:
                if isinstance(s, DOne) and not isinstance(s.v, (S, str, int)): raise Unsupported("observation of several states")
            ok = z3.ForAll([w], Implies(it.member_f(keys, w), it.has_key(obs, S(w))))
            if E.valid(ok) is not True: raise Unsupported("get_value with variables that may not be observed")
            good = obs_in_domain(it, obs, lambda w: it.member_f(keys, w))
            if E.valid(good) is not True and not E.decide(good): raise PyRaise("IndexError" if self.kind_ == "numpy" else "KeyError", "state outside of the domain")
            f = it._anyX
            if f is None: f = it._anyX = it.valuation("X0")
            return S(sval(it, st, obs_shift(it, obs, f)))
    class Set(Contract):
        key = KINDS[kind][0] + ".set_value"; props = ("C04", "C05"); kind_ = kind; cases = (None,) if kind == "numpy" else ("full", "partial")
        def args(self, it, case):
            E = it.E; st = sym_store(it, self.kind_, "self", inp=False); dom_of(it, st).inp = "domain of self"
            self.old = st.attrs["_data"].val if self.kind_ == "numpy" else st.attrs["_data"]
            return dict(self=st, value=S(E.fresh("y", R)), observation=full_obs(it, it.keys(dom_of(it, st)), case != "partial")), None
        def post(self, it, case, a, out):
            E = it.E; st, obs, y = a[0]["self"], a[0]["observation"], a[0]["value"]; n = f"{self.kind_} set_value: "; X = it.valuation(); keys = it.keys(dom_of(it, st))
            if no_exc(it, out, n + "no exception"): return
            E.prove(sval(it, st, X) == If(agrees(it, obs, X, lambda w: it.member_f(keys, w)), y.t, self.old(X) if self.kind_ == "numpy" else it.tree_eval(self.old, X)), n + "the new value at the observed assignment, the old ones elsewhere")
            prove_inv(it, st, n)
        def use(self, it, p):
            raise Unsupported("set_value: no call-site contract")
    class Copy(Contract):
        key = "bcause.factors.values.store:DiscreteStore.copy"; props = ("C05", "C04"); cases = tuple(KINDS)
        def args(self, it, case): return dict(self=sym_store(it, case, "self")), None
        def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], {})
        def post(self, it, case, a, out):
            E = it.E; st = a[0]["self"]; n = f"{case} copy: "
            if no_exc(it, out, n + "no exception"): return
            r = out.val
            if not is_store(it, r, case, n): return
            E.prove(sval(it, r, (X := it.valuation())) == sval(it, st, X), n + "same values"); prove_domain(it, r, it.keys(dom_of(it, st)).segs, n); prove_inv(it, r, n); no_alias(it, r, [st], n)
            E.record(n + "the domain is another object", dom_of(it, r) is not dom_of(it, st))
        def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"]], dict(deep=p["deep"]))
    register(Get); register(Set)
register(Copy)
class StoreInit(Contract):
    "the constructor keeps the values: an array or a nested list by position, a tree as it is, nothing as zeros"
    props = ("C04", "C05")
    def args(self, it, case):
        E = it.E; dom = domain_dict(it, "dom", inp="domain argument"); keys = it.keys(dom); sym = ("tab", "values", E.birth())
        t = Tensor(E, dom.snap(), lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)), inp="values argument")
        if case == "array":
            d, f = t, t.val
            if "Tree" in self.key: E.require(it.nonempty_f(keys.segs))
        elif case == "flat": d, f = lib.FlatT(t, "list"), t.val
        elif case == "none": d, f = None, lambda X: z3.RealVal(0)
        elif case == "scalar": y = E.fresh("y", R); d, f = S(y), lambda X: y
        elif case == "tree": d = sym_store(it, "tree", "src", dom, inp=False).attrs["_data"]; f = lambda X: it.tree_eval(d, X)
        return dict(domain=dom, data=d), (Obj(E, it.get_func(self.key.rsplit(".", 1)[0])), f, t)
    def call(self, it, fn, a): it.call_func(fn, [a[1][0]], dict(a[0])); return a[1][0]
    def post(self, it, case, a, out):
        E = it.E; o, f, t = a[1]; n = f"{o.cls.name}({case}): "
        if no_exc(it, out, n + "no exception"): return
        X = it.valuation(); E.prove(sval(it, o, X) == f(X), n + "values"); prove_domain(it, o, it.keys(a[0]["domain"]).segs, n); prove_inv(it, o, n)
        d = o.attrs["_data"]
        if isinstance(d, Tensor): E.record(n + "does not share its array with the argument", d.buf != t.buf)
        E.record(n + "the domain is another object", dom_of(it, o) is not a[0]["domain"])
    def use(self, it, p):
        d, dom = p.get("data"), p["domain"]
        if isinstance(d, lib.Stack) and "Numpy" in self.key:
            k = dom.segs[0] if isinstance(dom, Dct) and dom.segs else None
            if not isinstance(k, DOne) or not isinstance(k.k, str) or not isinstance(k.v, Lst) or not k.v.concrete or len(k.v.items) != 2 or not all(isinstance(x, str) for x in k.v.items): raise Unsupported("stacked arrays with another domain")
            if any(it.E.valid(Not(c(k.k))) is not True for c, _ in dom.ovr): raise Unsupported("stacked arrays with another domain")
            lab = it.uterm(k.k); d = lib.unstack(it, d, lab, k.v.items); old = dom
            dom = Dct(it.E, [DOne(k.k, it.states(lab))] + [DGen(s.base, s.c, s.g, (lambda s: lambda x: it.dval_at(old, s, x))(s), s.key) if isinstance(s, DGen) else DOne(s.k, it.dget(old, s.k)) for s in old.segs[1:]], ordered=dom.ordered); p = dict(p, data=d, domain=dom)
            if it.E.valid(it.same_keys_f(it.keys(d.axes), it.keys(dom))) is not True: raise Unsupported("stacked arrays with another domain")
        it.run_func(it.get_func(self.key), [], dict(p))
@register
class TreeInit(StoreInit): key = TS + ".__init__"; cases = ("array", "flat", "none", "scalar", "tree")
@register
class NumpyInit(StoreInit): key = NS_ + ".__init__"; cases = ("array", "none")
