"""Causal queries (C11) and the probabilities of causation (C12)."""
from .base import *
from .models import *
CI = "bcause.inference.causal.causal:CausalInference"
DU = "bcause.util.domainutils:"

# ---- states that stand for true and false
@register
class IdentifyTrueFalse(Contract):
    """true and false state of a binary variable: 1 and 0 (numbers), or the name of the variable followed by 1 and by 0 or 2 (texts,
    whatever the case of the letters)"""
    key = DU + "identify_true_false"; props = ("C12",); cases = ("int int", "str str", "float float", "int str", "bool bool", "int", "str", "longer")
    def args(self, it, case):
        E = it.E; name = S(E.fresh("name", U), "name"); self.st = []
        if case == "longer":
            l = it.states(E.fresh("v", U)); E.require(st_size(l.statesof) > 2); l.inp = "domain argument"
        else:
            for t in case.split(): self.st.append(S(E.fresh("d", I)) if t == "int" else S(E.fresh("d", R)) if t == "float" else S(E.fresh("d", U), "name") if t == "str" else E.decide(E.fresh("d", B)))
            l = Lst(E, [One(x) for x in self.st], inp="domain argument")
            for i, x in enumerate(self.st):
                for y in self.st[:i]: E.require(Not(zb(it.eq(x, y))))
        return dict(varname=name, dom=l), name
    def post(self, it, case, a, out):
        E = it.E; n = f"identify_true_false ({case}): "; st = self.st; kinds = case.split()
        def is_(x, t, v):
            if t in ("int", "float"): return real(x) == v
            low = z3.Function("lower", U, U); return low(x.t) == lib.fmt(it, "{}" + str(v), [low(a[1].t)])
        if kinds in (["int", "int"], ["float", "float"], ["str", "str"]):
            t = kinds[0]; T = [is_(x, t, 1) for x in st]; Fa = [is_(x, t, 0) if t != "str" else Or(is_(x, t, 0), is_(x, t, 2)) for x in st]
            ok = Or(And(T[0], Fa[1]), And(T[1], Fa[0]))
        else: ok = z3.BoolVal(False)
        if out.kind == "raise":
            E.record(n + "states that are not identified raise ValueError", out.val.cls == "ValueError"); E.prove(Not(ok), n + "true and false are identified when they are in the domain"); return
        if z3.is_false(ok): E.record(n + "domains without a true and a false state are rejected", False); return
        E.prove(ok, n + "domains without a true and a false state are rejected"); r = it.unpack(out.val, 2)
        E.prove(Or(And(T[0], zb(it.eq(r[0], st[0])), zb(it.eq(r[1], st[1]))), And(T[1], zb(it.eq(r[0], st[1])), zb(it.eq(r[1], st[0])))), n + "first the true state, then the false one")
    def use(self, it, p):
        E = it.E; v, d = it.uterm(p["varname"]), p["dom"]
        if not isinstance(d, Lst) or E.valid(lists_same_f(it, d, it.states(v))) is not True: raise Unsupported("true and false state of another list")
        if not E.decide(z3.Function("binary", U, B)(v)): raise PyRaise("ValueError", "true/false states")
        T, Fa = z3.Function("true_state", U, U)(v), z3.Function("false_state", U, U)(v)
        E.lemma(And(st_in(v, T), st_in(v, Fa), T != Fa)); return it.tup(S(T, "state"), S(Fa, "state"))

# ---- queries, as callers see them
class QueryV:
    """the result of a counterfactual query: a table over the targets in their worlds.  targets: [(variable, world number)];
    dos: the interventions of the worlds; evidence"""
    def __init__(self, it, inf, targets, dos, evidence): self.it, self.inf, self.targets, self.dos, self.evidence, self.gets = it, inf, targets, dos, evidence, []
    def vc_attr(self, it, k):
        if k != "get_value": raise Unsupported(f"{k} of the result of a query")
        def f(**kw):
            star = kw.pop("**", []); d = Dct(it.E)
            for x, v in kw.items(): it.dset(d, x, v)
            for o in star: it.dict_update(d, o)
            r = it.E.fresh("prob", R); it.queries.append((r, self, d)); return S(r)
        return lib.Callable_(f)
def plain(it, v):
    "list of atoms"
    return [v] if isinstance(v, (str, S)) else Lst(it.E, it.iter_segs(v)).items
class Renamed(Obj):
    "a renamed model, as far as queries need it: the model and the mapping"
class Fused(Obj):
    "models joined in some of their roots, as far as queries need it"
@register
class RenameSCM(Contract):
    key = SCM + ".rename_vars"; trusted = True; why_trusted = "renaming a model is checked in bounded form (C14)"
    def use(self, it, p):
        E = it.E; m, mp = p["self"], p["names_mapping"]; r = Renamed(E, m.cls); r.model, r.mapping = m, mp.snap(); mp = r.mapping
        endo = Lst(E, it.iter_segs(m.attrs["_endogenous"]), "list")
        new = lambda x: it.dget(mp, S(x, "name"), S(x, "name"))
        r.attrs["_endogenous"] = it.rebased(Lst(E, [Gen(s.base, s.c, s.g, new) if isinstance(s, Gen) else One(new(it.uterm(s.v))) for s in endo.segs], "list")); return r
@register
class FusionRoots(Contract):
    key = "bcause.models.transform.combination:fusion_roots"; trusted = True; why_trusted = "joining models in their roots is checked in bounded form, through counterfactual queries (C11)"
    def use(self, it, p):
        ms = Lst(it.E, it.iter_segs(p["models"])).items; r = Fused(it.E, ms[0].cls); r.models, r.on = ms, Lst(it.E, it.iter_segs(p["on"]), "list"); r.kw = {k: v for k, v in p.items() if k not in ("models", "on")}; kw = r.kw.pop("builder_kargs", None)
        if isinstance(kw, Dct): r.kw.update({it.pyval(s.k) if not isinstance(s.k, str) else s.k: s.v for s in kw.segs})
        return r
class ProbInf:
    "an inference object over a model, made by the function that a causal inference was given"
    def __init__(self, it, model): self.model, self.calls = model, []
    def vc_attr(self, it, k):
        if k == "compile":
            def f(target, evidence=None): self.calls.append((Lst(it.E, it.iter_segs(it.tup(target) if isinstance(target, (S, str)) else target)), Dct(it.E) if evidence is None else evidence.snap())); return self
            return lib.Callable_(f)
        if k == "run":
            def f():
                if not self.calls: raise PyRaise("ValueError", "Model not compiled")
                return self.result
            return lib.Callable_(f)
        if k == "query":
            def f(target, conditioning=None, evidence=None):
                if conditioning is not None: raise Unsupported("conditional query")
                self.vc_attr(it, "compile").vc_call(it, [target, evidence], {}); return self.result
            return lib.Callable_(f)
        raise Unsupported(f"{k} of an inference object")
def value_f(it, d, x, other):
    "formula: the dictionary has the entry x: other (a term)"
    return And(zb(it.has_key(d, S(x, "name"))), it.E.merge_bool(lambda: (it.E.require(zb(it.has_key(d, S(x, "name")))), it.uterm(it.dget(d, S(x, "name"))) == other)[1]))
@register
class Query(Contract):
    """an interventional query asks for the targets, given the evidence, in the intervened model; a counterfactual query in the model of the factual
    world and one intervened copy per world that share the exogenous variables"""
    key = CI + ".query"; props = ("C11", "C12"); cost = 2
    cases = ("interventional/name", "interventional/list", "interventional/list/no evidence", "1 world/name", "1 world/name/no evidence", "1 world/list", "1 world as list/name", "2 worlds/two", "2 worlds/one", "3 worlds/two/no evidence")
    def args(self, it, case):
        E = it.E; what, form, *rest = case.split("/"); m = sym_model(it, "scm"); g = mgraph(m); inf = Obj(E, it.get_func(CI), inp="inference object"); inf.inp = None; self.made = []
        def prob(model):
            r = ProbInf(it, model); r.result = Opaque("answer"); self.made.append(r); return r
        inf.attrs.update(_model=m, _inf=None, _compiled=False, _prob_inf_fn=lib.Callable_(prob)); a = dict(self=inf); node = lambda nm: (lambda t: (E.require(g.isnode(it, t)), S(t, "name"))[1])(E.fresh(nm, U))
        cf = what != "interventional"; k = int(what.split()[0]) if cf else 1; dos = [observation(it, f"do{i}", f"intervention argument") for i in range(k)]
        if form == "name": T = [node("target")]; a["target"] = T[0]
        elif form == "list" and not cf: T = subset_list(it, "target", g.nodes, inp="target argument"); a["target"] = T
        else:
            T = [node(f"target{i}") for i in range(1 if form == "one" else 2)]; a["target"] = Lst(E, [One(t) for t in T], "list", inp="target argument")
        a["do"] = dos[0] if what in ("interventional", "1 world") else Lst(E, [One(d) for d in dos], "list", inp="intervention argument")
        W = [1] * (len(T) if isinstance(T, list) else 0)
        if "worlds" in what: W = [1, 2] if form == "two" else [2]; W = [k, 1] if k == 3 else W; a["targets_subgraphs"] = Lst(E, [One(w) for w in W], "list", inp="worlds argument")
        ev = None if rest else observation(it, "ev", "evidence argument")
        if ev is not None: a["evidence"] = ev
        if cf: a["counterfactual"] = True
        return a, (m, T, W, dos, ev, cf)
    def call(self, it, fn, a): self.made.clear(); return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; m, T, W, dos, ev, cf = a[1]; g = mgraph(m); n = f"query ({case}): "; endo = m.attrs["_endogenous"]; x = E.fresh("x", U); fm = lambda i, t: lib.fmt(it, "{}_" + str(i), [t])
        if out.kind == "raise":
            d = z3.Const("dx", U); good = And(*[And(obs_in_domain(it, o, lambda w: g.isnode(it, w)), z3.ForAll([d], Implies(zb(it.has_key(o, S(d))), g.isnode(it, d)))) for o in dos])
            E.prove(Not(good), n + "an exception only for interventions with unknown variables or states", note=str(out.val)); return
        for o in dos: E.prove(Implies(zb(it.has_key(o, S(x))), g.isnode(it, x)), n + "interventions on unknown variables are rejected")
        hit = [r for r in self.made if r.result is out.val]
        if len(hit) != 1 or not hit[0].calls: raise Unsupported("answer that does not come from one query")
        q = hit[0]; T1, E1 = q.calls[-1]; mod = q.model
        # the model
        def intervened(r, o): return getattr(r, "interv", (None, None))[0] is m and E.valid(zb(it.eq(r.interv[1], o))) is True
        if not cf: E.record(n + "the model is the intervened one", isinstance(mod, Obj) and intervened(mod, dos[0]))
        else:
            ok = isinstance(mod, Fused) and len(mod.models) == 1 + len(dos) and not any(isinstance(x_, Fused) for x_ in mod.models)
            if not ok: raise Unsupported("model of a counterfactual query")
            E.record(n + "the first world is the model itself", mod.models[0] is m)
            E.record(n + "the other worlds are intervened copies, in order", all(isinstance(r, Renamed) and intervened(r.model, o) for r, o in zip(mod.models[1:], dos)))
            exo = And(g.isnode(it, x), Not(it.member_f(endo, x)))
            E.prove(it.member_f(mod.on, x) == exo, n + "the worlds share the exogenous variables")
            img = [it.member_f(endo, x)]; y = z3.Const("ey", U)
            for i, r in enumerate(mod.models[1:], 1):
                if not isinstance(r, Renamed): continue
                mp = r.mapping; E.prove(Implies(it.member_f(endo, x), value_f(it, mp, x, fm(i, x))), n + "in its world, every endogenous variable has the name with the number of the world")
                E.prove(Implies(zb(it.has_key(mp, S(x))), it.member_f(endo, x)), n + "only endogenous variables are renamed")
                img.append(z3.Exists([y], And(it.member_f(endo, y), x == fm(i, y))))
            e1 = mod.kw.get("endogenous")
            if e1 is None: E.record(n + "roles", False)
            else: E.prove(it.member_f(Lst(E, it.iter_segs(e1)), x) == Or(*img), n + "the endogenous variables of all the worlds are endogenous")
        # targets
        if isinstance(T, list):
            want = [it.uterm(t) if not cf else fm(w, it.uterm(t)) for t, w in zip(T, W)]
            E.prove(z3.ForAll([x], it.member_f(T1, x) == disj([x == w for w in want])), n + "the targets, in their worlds"); got = T1 if T1.concrete else None
        else: E.prove(it.member_f(T1, x) == it.member_f(T, x), n + "the targets")
        # evidence: the factual one; the states set by the interventions may be there too
        v = E.fresh("val", U); y = z3.Const("dy", U); opts = []
        if ev is not None: opts.append(value_f(it, ev, x, v))
        for i, o in enumerate(dos, 1): opts.append(value_f(it, o, x, v) if not cf else z3.Exists([y], And(x == fm(i, y), value_f(it, o, y, v))))
        E.prove(Implies(value_f(it, E1, x, v), disj(opts)), n + "the evidence holds nothing but the factual evidence and the interventions of the worlds")
        if ev is not None:
            # (a variable of the model that has the name of a copy is out of scope)
            free = z3.ForAll([y], Implies(g.isnode(it, y), And(*[x != fm(i, y) for i in range(1, len(dos) + 1)]))) if cf else Not(zb(it.has_key(dos[0], S(x))))
            known = And(free, g.isnode(it, x)); E.prove(Implies(And(known, value_f(it, ev, x, v)), value_f(it, E1, x, v)), n + "all the factual evidence is used")
    def use(self, it, p):
        E = it.E
        if p["counterfactual"] is not True: raise Unsupported("result of a query that is not counterfactual")
        t = plain(it, p["target"]); w = p["targets_subgraphs"]; w = [1] * len(t) if w is None else Lst(E, it.iter_segs(w)).items; do = p["do"]
        dos = [do] if isinstance(do, Dct) else Lst(E, it.iter_segs(do)).items; ev = Dct(E) if p["evidence"] is None else p["evidence"]
        if not all(isinstance(x, int) for x in w): raise Unsupported("worlds of a query")
        if not hasattr(it, "queries"): it.queries = []
        return QueryV(it, p["self"], list(zip(t, w)), [d.snap() for d in dos], ev.snap())
def dict_is_f(it, d, pairs):
    "formula: the dictionary has exactly these entries (terms)"
    E = it.E; x = E.fresh("x", U); hk = lambda y: zb(it.has_key(d, S(y, "name")))
    f = z3.ForAll([x], hk(x) == disj([x == k for k, v in pairs]))
    return And(f, *[E.merge_bool(lambda k=k, v=v: (E.require(hk(k)), it.uterm(it.dget(d, S(k, "name"))) == v)[1]) for k, v in pairs])
class ProbOf(Contract):
    "probability of necessity / sufficiency: one query with the right worlds, evidence and event"
    cases = ("given", "identified", "cause given", "effect given")
    def args(self, it, case):
        E = it.E; it.queries = []; m = sym_model(it, "scm"); g = mgraph(m); c, e = E.fresh("cause", U), E.fresh("effect", U); E.require(And(g.isnode(it, c), g.isnode(it, e), c != e))
        inf = Obj(E, it.get_func(CI), inp="inference object"); inf.attrs.update(_model=m, _inf=None, _compiled=False)
        a = dict(self=inf, cause=S(c, "name"), effect=S(e, "name")); tf = {}
        for k, v in (("cause", c), ("effect", e)):
            if case == "given" or case == k + " given":
                T, Fa = E.fresh("true_" + k, U), E.fresh("false_" + k, U); a["true_false_" + k] = it.tup(S(T, "state"), S(Fa, "state"))
            else: T, Fa = z3.Function("true_state", U, U)(v), z3.Function("false_state", U, U)(v)
            tf[k] = (T, Fa)
        return a, (c, e, tf)
    def call(self, it, fn, a):
        p = dict(a[0]); return it.call_func(fn, [], p)
    def post(self, it, case, a, out):
        E = it.E; c, e, tf = a[1]; n = f"{self.key.split('.')[-1]} ({case}): "; binary = z3.Function("binary", U, B)
        if out.kind == "raise":
            need = [binary(v) for k, v in (("cause", c), ("effect", e)) if "true_false_" + k not in a[0]]
            E.prove(Not(conj(need)) if need else z3.BoolVal(False), n + "an exception only if a true and a false state cannot be identified", note=str(out.val)); return
        hit = [(q, d) for r, q, d in it.queries if isinstance(out.val, S) and z3.eq(r, out.val.t)]
        if len(hit) != 1 or len(it.queries) != 1: raise Unsupported("value that is not an entry of the result of one query")
        q, obs = hit[0]; ev, events = self.want(c, e, *tf["cause"], *tf["effect"])
        E.record(n + "the query is about this model", q.inf is a[0]["self"])
        E.prove(dict_is_f(it, q.evidence, ev), n + "factual evidence")
        # the events: (variable, intervention of its world, state), in any order of the targets
        import itertools
        if len(q.targets) != len(events) or not all(1 <= w <= len(q.dos) for t, w in q.targets): raise Unsupported("another number of targets or worlds")
        def name(t, w): return lib.fmt(it, "{}_" + str(w), [it.uterm(t)])
        def matches(t, w, event):
            x, do, s = event; k = name(t, w)
            val = E.merge_bool(lambda: zb(it.eq(it.dget(obs, S(k, "name")), S(s, "state"))) if E.decide(zb(it.has_key(obs, S(k, "name")))) else z3.BoolVal(False))
            return And(it.uterm(t) == x, dict_is_f(it, q.dos[w - 1], do), val)
        E.prove(disj([conj([matches(t, w, ev_) for (t, w), ev_ in zip(q.targets, perm)]) for perm in itertools.permutations(events)]), n + "the effect has the right state in the world of each intervention")
        if len(events) > 1: E.record(n + "different worlds", len({w for t, w in q.targets}) == len(events))
    def use(self, it, p): raise Unsupported("probability of causation")
@register
class PN(ProbOf):
    key = CI + ".prob_necessity"; props = ("C12",)
    def want(self, c, e, tc, fc, te, fe): return [(c, tc), (e, te)], [(e, [(c, fc)], fe)]
@register
class PSuff(ProbOf):
    key = CI + ".prob_sufficiency"; props = ("C12",)
    def want(self, c, e, tc, fc, te, fe): return [(c, fc), (e, fe)], [(e, [(c, tc)], te)]
@register
class PNS(ProbOf):
    key = CI + ".prob_necessity_sufficiency"; props = ("C12",)
    def want(self, c, e, tc, fc, te, fe): return [], [(e, [(c, fc)], fe), (e, [(c, tc)], te)]
