"""Inference with several models: the models that take part, one precise result per model, and the envelope of the results (C17)."""
import itertools
from .base import *
from .models import *
from .causal import CI, PN, PSuff, PNS, QueryV, dict_is_f
MI = "bcause.inference.causal.multi:CausalMultiInference"; IPF = "bcause.factors.imprecise:IntervalProbFactor"
MODEL = z3.Function("model_of", U, I, U); FIRST = z3.Const("first_model", U)

def models_list(it, name, inp=None, empty=True):
    "a list of models of unknown length"
    E = it.E; n = E.fresh("n_" + name, I); E.fact(n >= 0 if empty else n >= 1); k = E.fresh("list_" + name, U); c = E.fresh("i", I)
    b = Base(E, name, I, lambda i: And(0 <= i, i < n), lambda x, y: x < y, length=n)
    l = Lst(E, [Gen(b, c, z3.BoolVal(True), lambda i: S(MODEL(k, i), "model"))], "list", inp=inp)
    if not empty: E.require(it.nonempty_f(l.segs))
    return l
INFOF = z3.Function("inference_over", U, U)
def engine(it, seen=None):
    "the function that makes the inference object of a model"
    return lib.Callable_(lambda m: S(INFOF(mterm(it, m)), "inference"))
def mterm(it, m): return FIRST if isinstance(m, Obj) else it.uterm(m)
def multi(it, **attrs):
    o = Obj(it.E, it.get_func(MI)); o.attrs.update(attrs); return o
def seq_same(it, got, want):
    "are the two lists the same, element by element and in order? (formula)"
    E = it.E
    if not isinstance(got, Lst): return z3.BoolVal(False)
    got = Lst(E, it.iter_segs(got), "list")
    if not want.segs: return Not(it.nonempty_f(got.segs))
    return zb(it.seq_eq(got, want)) if got.segs else Not(it.nonempty_f(want.segs))
def cat(it, *ls): return Lst(it.E, [s for l in ls for s in it.iter_segs(l)], "list")
class Multi(Contract):
    def use(self, it, p): return it.run_func(it.get_func(self.key), list(p.values()), {})
@register
class SetModels(Multi):
    "from now on exactly these models"
    key = MI + ".set_models"; props = ("C17",); cases = ("list", "none")
    def args(self, it, case):
        new = None if case == "none" else models_list(it, "new", "list of models"); o = multi(it, _models=models_list(it, "old"), _compiled=it.E.decide(it.E.fresh("compiled", B)), _causal_inf_fn=engine(it))
        return dict(self=o, models=new), new
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; n = f"set_models ({case}): "
        if no_exc(it, out, n + "no exception"): return
        E.prove(seq_same(it, o.attrs["_models"], cat(it, a[1]) if a[1] is not None else Lst(E, [])), n + "the models are those given, in order"); E.record(n + "results of the models before are not used again", o.attrs["_compiled"] is False)
@register
class AddModels(Multi):
    "the models before, followed by these"
    key = MI + ".add_models"; props = ("C17",); cases = ("list", "none")
    def args(self, it, case):
        E = it.E; new = None if case == "none" else models_list(it, "new", "list of models"); old = models_list(it, "old", "list of models set before")
        o = multi(it, _models=old, _compiled=E.decide(E.fresh("compiled", B)), _causal_inf_fn=engine(it)); return dict(self=o, models=new), (old, new)
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; old, new = a[1]; n = f"add_models ({case}): "
        if no_exc(it, out, n + "no exception"): return
        E.prove(seq_same(it, o.attrs["_models"], cat(it, old, *([new] if new is not None else []))), n + "the models before, then those given, in order")
        if case != "none": E.record(n + "results of the models before are not used again", o.attrs["_compiled"] is False)
def mapped(it, l, f): return Lst(it.E, [One(f(mterm(it, s.v))) if isinstance(s, One) else Gen(s.base, s.c, s.g, (lambda s: lambda i: f(it.uterm(s.elem(i))))(s)) for s in it.iter_segs(l)], "list")
@register
class CompileMulti(Multi):
    "one inference object per model, in order; at least one model is needed"
    key = MI + ".compile"; props = ("C17",)
    def args(self, it, case):
        l = models_list(it, "models", "list of models"); return dict(self=multi(it, _models=l, _compiled=it.E.decide(it.E.fresh("compiled", B)), _causal_inf_fn=engine(it))), l
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; l = a[1]; n = "compile (several models): "; some = it.nonempty_f(it.iter_segs(l))
        if out.kind == "raise": E.record(n + "no models: ValueError", out.val.cls == "ValueError"); E.prove(Not(some), n + "no exception if there is a model"); return
        E.prove(some, n + "no models are rejected"); E.record(n + "returns the inference object", out.val is o); E.record(n + "is compiled", o.attrs["_compiled"] is True)
        E.prove(seq_same(it, o.attrs["_models"], l), n + "the same models"); E.prove(seq_same(it, o.attrs.get("_causal_inf"), mapped(it, l, lambda m: S(INFOF(m), "inference"))), n + "one inference object per model, in order")
        m = o.attrs.get("_model"); E.prove(zb(it.eq(m, it.getitem(l, 0))), n + "the model that is shown is the first one")
RESULT, OTHER = z3.Function("result_of_query", U, U), z3.Function("another_result", U, U)
PROBOF, OTHERP = z3.Function("probability_in", U, R), z3.Function("another_probability", U, R)
def same_args(it, want, got):
    "formula: the arguments are those that are wanted"
    same = []
    for x, w in want.items():
        g = got[x]
        if g is w: continue
        if g is None or w is None or isinstance(g, bool) or isinstance(w, bool): same.append(z3.BoolVal(False)); continue
        same.append(zb(it.eq(g, w)))
    return conj(same)
def precise(it, want):
    "the inference objects of the single models: a query with the wanted arguments has a result, one with other arguments another one"
    def attr(t, k):
        if k != "query": raise Unsupported(f"{k} of an inference object")
        def f(target, do, evidence=None, counterfactual=False, targets_subgraphs=None):
            c = z3.simplify(same_args(it, want, dict(target=target, do=do, evidence=evidence, counterfactual=counterfactual, targets_subgraphs=targets_subgraphs)))
            return S(RESULT(t) if z3.is_true(c) else If(c, RESULT(t), OTHER(t)), "result")
        return lib.Callable_(f)
    it.atoms["inference"] = attr
    def rattr(t, k): raise Unsupported(f"{k} of a result")
    it.atoms["result"] = rattr
class Envelope:
    "the interval factor of a list of precise results"
    def __init__(self, it, results): self.it, self.results, self.vc_cls = it, results, it.get_func(IPF)
    def vc_attr(self, it, k):
        if k == "restrict":
            def f(**kw): return EnvelopeAt(it, self.results, kw)
            return lib.Callable_(f)
        raise Unsupported(f"{k} of an interval factor")
class EnvelopeAt:
    "an interval factor restricted to one assignment: its values are the smallest and the largest of the precise ones"
    def __init__(self, it, results, kw): self.results, self.kw, self.vc_cls = results, kw, it.get_func(IPF)
    def vc_attr(self, it, k):
        if k != "values": raise Unsupported(f"{k} of an interval factor")
        vals = Lst(it.E, [One(self.at(it, s.v)) if isinstance(s, One) else Gen(s.base, s.c, s.g, (lambda s: lambda i: self.at(it, s.elem(i)))(s)) for s in self.results.segs], "list")
        return Lst(it.E, [One(lib.b_max(it, vals, kind=k)) for k in ("min", "max")], "list")
    def at(self, it, r): return it.call(it.getattr(r, "get_value"), [], dict(self.kw))
def state(it, l, interval):
    "an inference object over the models l: compiled for them, or not (with what may be left from earlier models)"
    E = it.E; o = multi(it, _models=l, _interval_result=interval, _causal_inf_fn=engine(it))
    if E.decide(E.fresh("compiled", B)): o.attrs.update(_compiled=True, _causal_inf=inferences(it, l), _model=it.getitem(l, 0))
    else:
        old = models_list(it, "earlier", empty=False); o.attrs.update(_compiled=False, _causal_inf=inferences(it, old), _model=it.getitem(old, 0))
    return o
def inferences(it, l): return mapped(it, l, lambda m: S(INFOF(m), "inference"))
@register
class QueryMulti(Multi):
    "the precise results, one per model and in order, or their envelope"
    key = MI + ".query"; props = ("C17",); cases = tuple("/".join(x) for x in itertools.product(("precise", "interval"), ("interventional", "counterfactual", "default")))
    def args(self, it, case):
        E = it.E; out, what = case.split("/"); l = models_list(it, "models", "list of models", empty=False); o = state(it, l, out == "interval")
        a = dict(target=S(E.fresh("target", U), "name"), do=observation(it, "do", "intervention argument"))
        if what != "default": a.update(evidence=observation(it, "ev", "evidence argument"), counterfactual=what == "counterfactual", targets_subgraphs=it.tup(2) if what == "counterfactual" else None)
        want = dict(dict(evidence=None, counterfactual=False, targets_subgraphs=None), **a); precise(it, want); return dict(self=o, **a), l
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; l = a[1]; n = f"query of several models ({case}): "; want = mapped(it, l, lambda m: S(RESULT(INFOF(m)), "result"))
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if case.startswith("interval"):
            if not isinstance(r, Envelope): E.record(n + "the envelope of the precise results", False); return
            E.prove(seq_same(it, r.results, want), n + "the envelope of the precise results of all the models")
        else: E.prove(seq_same(it, r, want), n + "one precise result per model, in order")
        E.prove(seq_same(it, a[0]["self"].attrs["_models"], l), n + "the models stay")
    def use(self, it, p): return it.run_func(it.get_func(self.key), [], dict(p))

# ---- probabilities of causation over several models
class ProbMulti(Contract):
    "the smallest and the largest of the precise values, or the list of them"
    props = ("C17",); cases = ("given/interval", "given/precise", "identified/interval", "identified/precise")
    def fn(self, it): return it.get_func(self.base.key)
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def args(self, it, case):
        E = it.E; how, form = case.split("/"); c, e = E.fresh("cause", U), E.fresh("effect", U); E.require(c != e); tf = {}
        if how == "given": l = models_list(it, "models", "list of models", empty=False)
        else:
            m = sym_model(it, "scm"); g = mgraph(m); E.require(And(g.isnode(it, c), g.isnode(it, e))); l = Lst(E, [One(m)] + models_list(it, "models").segs, "list", inp="list of models")
        o = state(it, l, form == "interval"); a = dict(self=o, cause=S(c, "name"), effect=S(e, "name"))
        for k, v in (("cause", c), ("effect", e)):
            if how == "given": T, Fa = E.fresh("true_" + k, U), E.fresh("false_" + k, U); a["true_false_" + k] = it.tup(S(T, "state"), S(Fa, "state"))
            else: T, Fa = z3.Function("true_state", U, U)(v), z3.Function("false_state", U, U)(v)
            tf[k] = (T, Fa)
        self.asked(it, c, e, tf); return a, (c, e, tf, l)
    def asked(self, it, c, e, tf):
        E = it.E; ev, events = self.base.want(c, e, *tf["cause"], *tf["effect"]); name = lambda t, w: lib.fmt(it, "{}_" + str(w), [it.uterm(t)]); queries = it.multi_queries = []
        def attr(t, k):
            if k != "query": raise Unsupported(f"{k} of an inference object")
            def f(target, do, evidence=None, counterfactual=False, targets_subgraphs=None):
                ts = [target] if isinstance(target, (str, S)) else Lst(E, it.iter_segs(target)).items; ws = [1] * len(ts) if targets_subgraphs is None else Lst(E, it.iter_segs(targets_subgraphs)).items; dos = [do] if isinstance(do, Dct) else Lst(E, it.iter_segs(do)).items
                if not all(isinstance(w, int) for w in ws): raise Unsupported("worlds of a query")
                evd = Dct(E) if evidence is None else evidence
                for k, q in enumerate(queries):
                    if [x is y for x, y in zip(q[0] + q[2], ts + dos)].count(False) == 0 and len(q[0] + q[2]) == len(ts + dos) and q[1] == ws and (q[3] is evd or evidence is None and not q[3].segs) and q[4] is counterfactual: break
                else: k = len(queries); queries.append((ts, ws, dos, evd, counterfactual))
                return S(z3.Function(f"result_{k}", U, U)(t), "result")
            return lib.Callable_(f)
        def rattr(t, k):
            if k != "get_value": raise Unsupported(f"{k} of a result")
            ts, ws, dos, evd, cf = queries[int(t.decl().name().split("_")[1])]; t = t.arg(0)
            def f(**kw):
                star = kw.pop("**", []); obs = Dct(E)
                for x, v in kw.items(): it.dset(obs, x, v)
                for d in star: it.dict_update(obs, d)
                if cf is not True or len(ts) != len(events) or len(ws) != len(ts) or not all(1 <= w <= len(dos) for w in ws) or len(events) > 1 and len(set(ws)) < len(events): return S(OTHERP(t))
                def matches(x, w, event):
                    y, d, s = event; k = name(x, w)
                    val = E.merge_bool(lambda: zb(it.eq(it.dget(obs, S(k, "name")), S(s, "state"))) if E.decide(zb(it.has_key(obs, S(k, "name")))) else z3.BoolVal(False))
                    return And(it.uterm(x) == y, dict_is_f(it, dos[w - 1], d), val)
                ok = And(dict_is_f(it, evd, ev), disj([conj([matches(x, w, q) for (x, w), q in zip(zip(ts, ws), perm)]) for perm in itertools.permutations(events)]))
                v = E.valid(ok)
                return S(PROBOF(t) if v is True else OTHERP(t) if v is False else If(ok, PROBOF(t), OTHERP(t)))
            return lib.Callable_(f)
        it.atoms["inference"], it.atoms["result"] = attr, rattr
    def post(self, it, case, a, out):
        E = it.E; c, e, tf, l = a[1]; n = f"{self.key.split('.')[-1]} of several models ({case}): "; want = mapped(it, l, lambda m: S(PROBOF(INFOF(m)))); binary = z3.Function("binary", U, B)
        if out.kind == "raise":
            E.prove(Not(And(binary(c), binary(e))) if case.startswith("identified") else z3.BoolVal(False), n + "an exception only if a true and a false state cannot be identified", note=str(out.val)); return
        r = out.val
        if case.endswith("precise"): E.prove(seq_same(it, r, want), n + "the value of every model, in order"); return
        if not (isinstance(r, Lst) and r.concrete and len(r.segs) == 2): E.record(n + "a lower and an upper bound", False); return
        for k, v, what in (("min", r.items[0], "smallest"), ("max", r.items[1], "largest")): E.prove(real(v) == real(lib.b_max(it, Lst(E, want.segs), kind=k)), n + f"the {what} value of the models")
    def use(self, it, p): raise Unsupported("probability of causation")
for base_ in (PN, PSuff, PNS):
    register(type(type(base_).__name__ + "Multi", (ProbMulti,), dict(key=MI + "." + base_.key.split(".")[-1], base=base_, __doc__=ProbMulti.__doc__)))
