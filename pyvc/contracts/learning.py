"""Parameter learning: the maximisation step, recording of models, and the number of rounds (C16)."""
import ast
from .base import *
from .models import *
LP = "bcause.learning.parameter."
IPL, AEM, EM = LP + "parameter:IterativeParameterLearning", LP + "expectation_maximization:AbastractExpectationMaximization", LP + "expectation_maximization:ExpectationMaximization"
DIV = ast.Div()

class ModelRef:
    "a model, as far as the learning loop needs it: the one after n steps"
    def __init__(self, n): self.n = n
def names_set(it, name, within=None, inp=None):
    E = it.E; f = E.fresh_fn(name, U, B); x = z3.Const("nx", U)
    if within is not None: E.lemma(z3.ForAll([x], Implies(f(x), within(x)), patterns=[f(x)]))
    return St(E, U, lambda y: f(y), None, kind="name", inp=inp)
def learner(it, m, prior=None, trained=None, converged=None):
    "a learner with its current and its prior model"
    E = it.E; o = Obj(E, it.get_func(EM)); g = mgraph(m)
    T = trained if trained is not None else subset_list(it, "trainable", g.nodes, inp="trainable variables")
    o.attrs.update(_prior_model=prior if prior is not None else m, _model=m, _trainable_vars=T, _converged_vars=converged if converged is not None else names_set(it, "converged"), _inference_method=Opaque("inference method"))
    return o
def counts_dict(it, T, fam):
    b = T.segs[0].base; return Dct(it.E, [DGen(b, it.E.fresh("x", U), z3.BoolVal(True), lambda x: fam(x))])
def left_fam(it, name):
    "tables over any variables, all of them on the left (as tables of counts are)"
    E = it.E; ind = E.fresh_fn("indom_" + name, U, U, B); v = z3.Const("gv", U); E.lemma(z3.ForAll([v], ind(v, v), patterns=[ind(v, v)]))
    f = Fam(it, name, lambda v, w: ind(v, w), lambda v, w: z3.BoolVal(False)); f.inst.append(lambda v: [ind(v, v)]); return f
def todo(it, o): return lambda v: it.member_f(o.attrs["_trainable_vars"], v)
def normalised(it, j, v, X):
    "the value of j / (j with v summed out)"
    tot = it.agg_vars("sum", lambda w: w == v, lambda Y: fval(it, j, Y), X)
    return lib.num_op(it, DIV, fval(it, j, X), tot)
def prove_normalised(it, f, j, v, n):
    E = it.E; X = it.valuation(); w = E.fresh("w", U)
    E.prove(fval(it, f, X) == normalised(it, j, v, X), n + "expected counts divided by their sum over the variable"); E.prove(is_var(it, f, w) == is_var(it, j, w), n + "variables of a learned table")
    E.prove(is_right(it, f, w) == And(is_var(it, j, w), w != v), n + "the variable is on the left, the others on the right")
    prove_factor(it, f, n)
@register
class Maximization(Contract):
    "every learned table is the table of expected counts, normalised over its variable"
    key = EM + "._maximization"; props = ("C16", "C05"); helper = True
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); o = learner(it, m); T = o.attrs["_trainable_vars"]; fam = left_fam(it, "counts"); d = counts_dict(it, T, fam); d.inp = "expected counts"
        return dict(self=o, pcounts=d), (m, fam)
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; m, fam = a[1]; n = "maximisation: "; do = todo(it, o); x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, Dct): E.record(n + "returns the tables by variable", False); return
        E.prove(zb(it.has_key(r, S(x, "name"))) == do(x), n + "a table for every variable that is learned, and for no other")
        def entry():
            E.require(do(x)); f = it.dget(r, S(x, "name"))
            if is_factor(it, f, "numpy", n): prove_normalised(it, f, fam(x), x, n)
        E.explore(entry)
    def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"], p["pcounts"]], {})

def evolution(it, name="earlier"):
    b = names_base(it, name); return Lst(it.E, [gen_of(it.E, b, lambda x: S(x, "model"))], "list")
def prove_recorded(it, o, ev0, m, n):
    "the list of models ends with m; the earlier ones stay"
    E = it.E; ev = o.attrs.get("_model_evolution")
    if not isinstance(ev, Lst): E.record(n + "the new model is recorded", False); return
    before = [One(o.attrs["_prior_model"])] if ev0 is None else ev0
    ok = len(ev.segs) == len(before) + 1 and isinstance(ev.segs[-1], One) and ev.segs[-1].v is m
    E.record(n + "the new model is recorded last", ok)
    E.record(n + "the models recorded before stay", len(ev.segs) == len(before) + 1 and all(x is y or isinstance(x, One) and isinstance(y, One) and x.v is y.v for x, y in zip(ev.segs, before)))
def prove_updated(it, case, r, m, K, at, n):
    "r is m with the tables at(v), v in K"
    E = it.E; g = mgraph(m); x = E.fresh("x", U); ok = isinstance(r, Obj) and r.cls is m.cls and r is not m
    E.record(n + "another model of the same class", ok)
    if not ok: return
    E.record(n + "the graph stays", mgraph(r) is g or E.valid(lib.graph_same_f(it, mgraph(r), g)) is True)
    if m.cls.name == "StructuralCausalModel": E.prove(it.member_f(r.attrs["_endogenous"], x) == it.member_f(m.attrs["_endogenous"], x), n + "the roles stay")
    def entry():
        E.require(g.isnode(it, x)); f = it.dget(mfactors(r), S(x, "name"), None)
        if f is None: E.record(n + "every variable has a table", False); return
        if E.decide(K(x)): at(x, f)
        else: E.prove(same_table_f(it, f, m.fam(x)), n + "the other tables stay")
        E.prove(lists_same_f(it, it.dget(mdomains(r), S(x, "name")), it.states(x)), n + "the same domains")
    E.explore(entry)
    E.record(n + "the current model is not modified, nor shared", mfactors(r) is not mfactors(m) and mdomains(r) is not mdomains(m))
    for d in (mfactors(r), mdomains(r)): E.prove(it.same_keys_f(it.keys(d), g.nodes), n + "one entry per variable of the graph")
@register
class UpdateModel(Contract):
    "a new model with the new tables, and the current ones for the other variables"
    key = IPL + "._update_model"; props = ("C16", "C22", "C05"); cases = ("bn/later", "scm/later", "scm/first"); helper = True
    def args(self, it, case):
        kind, when = case.split("/"); E = it.E; m = sym_model(it, kind); o = learner(it, m, prior=Opaque("prior model")); K = subset_list(it, "updated", mgraph(m).nodes); fam = graph_fam(it, "new", mgraph(m))
        if when == "later": o.attrs["_model_evolution"] = evolution(it)
        return dict(self=o, new_probs=counts_dict(it, K, fam)), (m, K, fam, None if when == "first" else list(o.attrs["_model_evolution"].segs))
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; m, K, fam, ev0 = a[1]; n = f"update of the model ({case}): "
        if no_exc(it, out, n + "no exception"): return
        r = o.attrs["_model"]; prove_updated(it, case, r, m, lambda x: it.member_f(K, x), lambda x, f: E.prove(same_table_f(it, f, fam(x)), n + "the new tables"), n)
        prove_recorded(it, o, ev0, r, n)
    def use(self, it, p): return it.run_func(it.get_func(self.key), [p["self"], p["new_probs"]], {})
# ---- the expected counts
OBSN, OBSC, OBSV, OBSKEY, PAIR = z3.Function("records_of", U, I), z3.Function("count_of", U, I, R), z3.Function("observed_in", U, I, U, B), z3.Function("observed_state", U, I, U, U), z3.Function("pair", U, I, U)
class TableSum:
    """a loop over a list of unknown length that adds a table to a table in every round; the sum is held in one entry of a dictionary or
    in one variable.  Checked: for any table over the variables of the first one, a round gives a table over the same variables, and adds
    to it the same as it adds to a table of zeros.  Then the table after the loop is the first one plus the sum of what the rounds add."""
    def __call__(self, it, s, env, itv):
        from ..interp import assigned_names, carried_names, Env, orig
        from ..core import Log
        E = it.E; segs = it.iter_segs(itv)
        if len(segs) != 1 or not isinstance(segs[0], Gen) or segs[0].base.sort != I:
            for g in segs:
                if isinstance(g, One): raise Unsupported("loop over a list with a known part")
                it.loop_gen(s, g, env)
            return
        seg, = segs; tn = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]); ass = assigned_names(s.body); carried = carried_names(s.body, tn); snap = env.snapshot()
        logs = E.logs
        def body(x, en):
            lg = Log(E.births); E.logs = [lg]
            try: st = it.run_body(s, en, seg.elem(x))
            finally: E.logs = logs
            if st[0] != "next": raise Unsupported("early end of a loop that adds tables")
            return [(o, e) for o, e in lg.effects if not isinstance(o, Env)]
        if len(carried) == 1:
            k = carried[0]; first = env.get(k)
            def round_(x, acc):
                en = snap.snapshot(); en.vars[k] = acc
                if body(x, en): raise Unsupported(f"effects in a loop that adds tables {eff if carried == [] else 0}")
                return en.vars[k]
        elif not carried:
            x0 = E.fresh("round", I); outs = E.explore(lambda: (E.require(seg.has(x0)), body(x0, snap.snapshot()))[1]); found = [o.val for o in outs if o.kind == "ok"]
            if not found or any(len(f) != 1 or not isinstance(f[0][0], Dct) or f[0][1][0] != "setitem" or orig(f[0][0]) is not orig(found[0][0][0]) for f in found): raise Unsupported("loop without invariant")
            d, key = orig(found[0][0][0]), found[0][0][1][1]
            def place(en): return next((x for x in en.vars.values() if orig(x) is d), d)
            first = it.getitem(place(env), key)
            if any(not isinstance(f[0][1][1], S) or not isinstance(key, S) or not z3.eq(f[0][1][1].t, key.t) for f in found): raise Unsupported("loop that changes several entries")
            def round_(x, acc):
                nt, nb, l, en = E.top, E.births, E.logs, snap.snapshot()
                E.logs = []; it.setitem(place(en), key, acc); E.logs = l
                try:
                    eff = body(x, en)
                    if len(eff) != 1 or orig(eff[0][0]) is not d: raise Unsupported("effects in a loop that adds tables")
                    return eff[0][1][2]
                finally: E.undo(nt, nb)
        else: raise Unsupported("loop that carries several variables")
        if not (isinstance(first, Obj) and isinstance(first.attrs.get("_store"), Obj) and "_right_vars" in first.attrs): raise Unsupported("loop without invariant")
        kind = kind_of(it, fstore(first)); dom, right = fdom(it, first), fright(it, first); keys = it.keys(dom); sym = ("tabs", "table before the round", E.birth()); t0 = E.fresh("before", U)
        anyt = make_factor(it, kind, dom, lambda X: it.app(sym, [t0], X, lambda w: it.member_f(keys, w)), right); zero = make_factor(it, kind, dom, lambda X: z3.RealVal(0), right)
        def check():
            x, X, w = E.fresh("round", I), it.valuation(), E.fresh("w", U); E.require(seg.has(x)); a, z = round_(x, anyt), round_(x, zero)
            for r in (a, z):
                if not (isinstance(r, Obj) and isinstance(r.attrs.get("_store"), Obj)) or kind_of(it, fstore(r)) != kind: return False
                if E.valid(it.same_keys_f(fkeys(it, r), keys)) is not True or E.valid(is_right(it, r, w) == it.member_f(right, w)) is not True: return False
            return E.valid(fval(it, a, X) - fval(it, anyt, X) == fval(it, z, X)) is True
        outs = [] if getattr(E, "mute_frame", False) else E.explore(check)        # once, for an arbitrary element of the loops around
        if any(o.kind == "raise" for o in outs): raise Unsupported("exception in a loop that adds tables: " + str([(o.val, o.conds) for o in outs if o.kind == "raise"])[:300])
        if not all(o.val for o in outs): raise Unsupported("loop that does not add tables over the same variables")
        def val(X):
            return real(fval(it, first, X)) + it.agg("sum", seg.has, I, lambda i: E.merge_term(lambda: (E.require(seg.has(i)), fval(it, round_(i, zero), X))[1]))
        r = make_factor(it, kind, dom, E.later(val), right)
        for n in ass | tn: env.set(n, Poison(f"{n} after a loop"))
        if carried: env.set(k, r)
        else: it.setitem(place(env), key, r)
class Tables2(Fam):
    "the posterior of the hidden variables given the i-th observation for v: a table for every v and i"
    def __init__(self, it, g):
        no = z3.BoolVal(False); self.what = {}
        Fam.__init__(self, it, "posterior", lambda p, w: self.dom(p, w), lambda p, w: no); self.g = g
    def dom(self, p, w):
        f = z3.Function("hidden_in", U, U, B); return f(p, w)
    def at(self, v, i):
        it, g = self.it, self.g; p = PAIR(v, i); w = z3.Const("hw", U)
        it.E.lemma(z3.ForAll([w], self.dom(p, w) == And(Or(w == v, And(g.edge(w, v), g.isnode(it, w))), Not(OBSV(v, i, w))), patterns=[self.dom(p, w)])); return self(p)
@register
class ObsCounts(Contract):
    key = EM + "._get_obs_counts"; trusted = True; why_trusted = "the distinct observations that are relevant for a variable, each with the number of records that have it (pandas); checked in bounded form (C16)"
    def use(self, it, p):
        E = it.E; v = p["target"]
        if not isinstance(v, S): raise Unsupported("counts of a known variable")
        v = v.t; E.lemma(OBSN(v) >= 0)
        def elem(i):
            w = z3.Const("ow", U); lt = E.fresh_fn("obslt", U, U, B); E.lemma(Not(OBSV(v, i, v)))
            b = Base(E, "observed", U, lambda x: OBSV(v, i, x), kind="name"); d = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda x: S(OBSKEY(v, i, x), "state"))]); d.obs = (v, i)
            return Lst(E, [One(d), One(S(OBSC(v, i)))], "tuple")
        memo = {}
        def el(i):
            i = z3.simplify(i); k = i.get_id()
            if k not in memo: memo[k] = (i, elem(i))
            return memo[k][1]
        c = E.fresh("i", I); b = Base(E, "observations", I, lambda i: And(0 <= i, i < OBSN(v)), lambda x, y: x < y)
        return Lst(E, [Gen(b, c, z3.BoolVal(True), el)], "list")
def posterior_inference(it, m, learner, seen):
    "the inference engine, on the current model (the prior one is another object): a query for the hidden variables of the i-th observation for v gives the table of their posterior"
    E = it.E; tabs = Tables2(it, mgraph(m))
    def make(model=None, *a, **k):
        if model is not learner.attrs["_model"] or a or k: raise Unsupported("inference on another model")
        o = Obj(E, it.get_func("bcause.inference.probabilistic.elimination:VariableElimination"))
        def query(target=None, evidence=None, conditioning=None):
            if not isinstance(evidence, Dct) or not hasattr(evidence, "obs") or conditioning is not None: raise Unsupported("query with other evidence")
            v, i = evidence.obs; f = tabs.at(v, i); w = E.fresh("w", U)
            if E.valid(it.member_f(it.to_lst(target) if not isinstance(target, Lst) else target, w) == tabs.dom(PAIR(v, i), w)) is not True: raise Unsupported("query for other variables")
            return f
        o.attrs["query"] = Callable_x(query); return o
    return Callable_x(make), tabs
class Callable_x(lib.Callable_): pass
@register
class Expectation(Contract):
    "the expected counts of a learned variable and its parents: the sum over the observations of the number of records times the posterior of what is hidden"
    key = EM + "._expectation"; props = ("C16",); inv = TableSum(); loops = {(EM + "._expectation", 0): inv, (EM + "._expectation", 1): inv, (EM + "._expectation", 2): inv}
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); prior = Obj(E, m.cls); prior.attrs.update(m.attrs); o = learner(it, m, prior=prior); f, tabs = posterior_inference(it, m, o, None); o.attrs["_inference_method"] = f; return dict(self=o), (m, tabs)
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; m, tabs = a[1]; g = mgraph(m); n = "expected counts: "; T = o.attrs["_trainable_vars"]; v, w = E.fresh("v", U), E.fresh("w", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, Dct): E.record(n + "tables by variable", False); return
        E.prove(zb(it.has_key(r, S(v, "name"))) == it.member_f(T, v), n + "one table per learned variable, and no other")
        def entry():
            E.require(it.member_f(T, v)); f = it.dget(r, S(v, "name")); X = it.valuation()
            if not is_factor(it, f, "numpy", n): return
            E.prove(is_var(it, f, w) == Or(w == v, And(g.edge(w, v), g.isnode(it, w))), n + "over the variable and its parents"); E.prove(Not(is_right(it, f, w)), n + "counts have no side"); prove_factor(it, f, n)
            tot = it.agg("sum", lambda i: And(0 <= i, i < OBSN(v)), I, lambda i: E.merge_term(lambda: it.lib.num_op(it, ast.Mult(), fval(it, tabs.at(v, i), X), OBSC(v, i))))
            E.prove(fval(it, f, X) == tot, n + "sum over the observations of the count times the posterior of the hidden variables")
        E.explore(entry)
    def use(self, it, p):
        E = it.E; o = p["self"]; m = o.attrs["_model"]; g = mgraph(m); no = z3.BoolVal(False)
        fam = Fam(it, "counts", lambda v, w: Or(w == v, And(g.edge(w, v), g.isnode(it, w))), lambda v, w: no)
        self.fam = fam; return counts_dict(it, o.attrs["_trainable_vars"], fam)
@register
class Step(Contract):
    "one step of EM: the expected counts of the learned variables, normalised; everything else stays; the model is recorded"
    key = IPL + ".step"; props = ("C16", "C05"); cost = 2
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); o = learner(it, m, prior=Opaque("prior model")); o.attrs["_model_evolution"] = evolution(it); REG[EM + "._expectation"].fam = None
        return dict(self=o), (m, list(o.attrs["_model_evolution"].segs))
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; m, ev0 = a[1]; n = "step: "; do = todo(it, o); fam = REG[EM + "._expectation"].fam
        if no_exc(it, out, n + "no exception"): return
        if fam is None: E.record(n + "the expected counts are computed", False); return
        r = o.attrs["_model"]; prove_updated(it, case, r, m, do, lambda x, f: is_factor(it, f, "numpy", n) and prove_normalised(it, f, fam(x), x, n), n)
        prove_recorded(it, o, ev0, r, n)
    def use(self, it, p):
        if "steps" not in p["self"].attrs: raise Unsupported("a step outside of run")
        if p.get("data") is not None: raise Unsupported("a step with new data")
        o = p["self"]; o.set("steps", S(o.attrs["steps"].t + 1)); return None

# ---- the number of rounds
STOP = z3.Function("stops_after", I, B)
@register
class Initialize(Contract):
    "learning starts from a copy of the prior model, with the data, and with nothing recorded but the prior model"
    key = AEM + ".initialize"; props = ("C16",)
    def args(self, it, case):
        E = it.E; m = sym_model(it, "scm"); o = Obj(E, it.get_func(EM)); REG[EM + "._process_data"].got = None
        o.attrs.update(_prior_model=m, _trainable_vars=None, _converged_vars=names_set(it, "converged"), _inference_method=Opaque("inference method"), _model_evolution=evolution(it), _model=Opaque("model of an earlier run"))
        return dict(self=o, data=Opaque("data")), m
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; m = a[1]; n = "initialisation: "; x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        r = o.attrs["_model"]; E.record(n + "the prior model stays the prior model", o.attrs["_prior_model"] is m)
        prove_updated(it, case, r, m, lambda x: z3.BoolVal(False), None, n)
        ev = o.attrs.get("_model_evolution"); E.record(n + "the record starts with the prior model", isinstance(ev, Lst) and len(ev.segs) == 1 and isinstance(ev.segs[0], One) and ev.segs[0].v is m)
        got = REG[EM + "._process_data"].got; E.record(n + "the data are processed once, after the model is set", isinstance(got, tuple) and got[0] is a[0]["data"] and got[1] is r)
    def use(self, it, p):
        o = p["self"]
        if o.attrs.get("round") is not True: raise Unsupported("initialisation outside of run")
        o.set("steps", S(z3.IntVal(0))); o.set("initialised", One(p["data"]) if "initialised" not in o.attrs else None); return None
@register
class ProcessData(Contract):
    key = EM + "._process_data"; trusted = True; why_trusted = "preparation of the data (pandas); checked in bounded form (C16)"
    def use(self, it, p):
        self.got = (p["data"], p["self"].attrs["_model"]) if self.got is None else "twice"; return None
@register
class StopLearning(Contract):
    key = EM + "._stop_learning"; trusted = True; why_trusted = "the test of convergence (scipy's rel_entr), an arbitrary function of the number of steps; checked in bounded form (C16)"
    def use(self, it, p):
        o = p["self"]
        if "steps" not in o.attrs: raise Unsupported("convergence outside of run")
        return S(STOP(o.attrs["steps"].t))
class RunInv(LoopInv):
    label = "run loop"
    def __init__(self): self.o = None; self.n = None
    def roles(self, it, env, names):
        i = one_of(env, [n for n in names if n in self.assigned], lambda v: isinstance(v, int) and not isinstance(v, bool), "number of rounds")
        s = one_of(env, names, lambda v: v is self.o, "learner")
        if "steps" not in self.o.attrs: raise Unsupported("loop before the initialisation")
        self.first = env.get(i); return dict(i=i, self=s)
    def havoc(self, it, vals):
        k = it.E.fresh("done", I); self.o.set("steps", S(k)); return dict(i=S(k + self.first), self=self.o)
    def steps(self): return self.o.attrs["steps"].t
    def holds(self, it, vals):
        i = vals["i"]; n = self.steps(); k = z3.Const("sk", I); i = z3.IntVal(i) if isinstance(i, int) else i.t
        l = [("the counter counts the steps", i == n + self.first), ("some number of steps", n >= 0), ("no step after one that ends the learning", z3.ForAll([k], Implies(And(1 <= k, k <= n), Not(STOP(k))), patterns=[STOP(k)]))]
        if self.n is not None: l.append(("not more steps than asked for", n <= self.n))
        return l
    def freeze(self, it, vals): return dict(vals, steps=self.steps())
    def measure(self, it, old, new): return [("another step in every round (termination)", self.steps() > old["steps"])]
@register
class Run(Contract):
    "initialisation with the data, then steps, until the test of convergence holds or the number of steps asked for is reached"
    key = IPL + ".run"; props = ("C16",); cases = ("steps", "until convergence"); inv = RunInv(); loops = {(IPL + ".run", 0): inv}
    def args(self, it, case):
        E = it.E; o = Obj(E, it.get_func(EM)); o.attrs.update(_prior_model=Opaque("prior model"), round=True)
        n = E.fresh("max_iter", I); E.fact(n >= 0); n = None if case != "steps" else n; self.inv.o, self.inv.n = o, n
        return dict(self=o, data=Opaque("data"), **({} if n is None else dict(max_iter=S(n)))), n
    def post(self, it, case, a, out):
        E = it.E; o = a[0]["self"]; n = f"run ({case}): "; k = E.fresh("k", I)
        if no_exc(it, out, n + "no exception"): return
        i = o.attrs.get("initialised"); E.record(n + "initialised once, with the data", i is not None and i.v is a[0]["data"])
        if i is None: return
        s = o.attrs["steps"].t
        if a[1] is not None: E.prove(And(0 <= s, s <= a[1]), n + "not more steps than asked for")
        E.prove(Implies(And(1 <= k, k < s), Not(STOP(k))), n + "no step after the test of convergence holds")
        E.prove(And(s >= 1, STOP(s)) if a[1] is None else Or(s == a[1], And(s >= 1, STOP(s))), n + "ends at convergence or with the number of steps asked for")
