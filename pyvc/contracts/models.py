"""Models: consistency of graph, tables and domains (C14), interventions (C10)."""
from .base import *
from .factors import *
PG, DAGM = "bcause.models.pgmodel:PGModel", "bcause.models.pgmodel:DiscreteDAGModel"
BN, SCM, CDM = "bcause.models.bnet:BayesianNetwork", "bcause.models.cmodel:StructuralCausalModel", "bcause.models.cmodel:DiscreteCausalDAGModel"
DET = "bcause.factors.deterministic:DeterministicFactor"
NAMES = {"bn": BN, "scm": SCM}

# ---- families of tables: one table per variable
class Fam:
    """table(v) for every variable v: over the variables w with indom(v, w), those with isright(v, w) on the right; the states of w
    in it are those of the label stv(v, w)"""
    def __init__(self, it, name, indom, isright, stv=None, inp=True):
        self.it, self.name, self.indom, self.isright, self.stv, self.inp = it, name, indom, isright, stv or (lambda v, w: w), inp
        E = it.E; self.lt, self.ltr = E.fresh_fn("ltd_" + name, U, U, U, B), E.fresh_fn("ltr_" + name, U, U, U, B)
        self.idf = E.fresh_fn("table_" + name, U, U); self.deg = E.fresh_fn("degenerate_" + name, U, B)
        self.inst = []      # instances of the assumptions about the tables, for the table of one variable
        self.sym, self.memo = ("tabs", name, E.birth()), {}
        a, b, c, d = z3.Consts("fa fb fc fd", U)
        for f, m in ((self.lt, indom), (self.ltr, isright)):
            E.lemma(z3.ForAll([d, a, b], Implies(And(m(d, a), m(d, b)), And(Not(And(f(d, a, b), f(d, b, a))), Or(a == b, f(d, a, b), f(d, b, a)))), patterns=[f(d, a, b)]))
            E.lemma(z3.ForAll([d, a, b, c], Implies(And(m(d, a), m(d, b), m(d, c), f(d, a, b), f(d, b, c)), f(d, a, c)), patterns=[z3.MultiPattern(f(d, a, b), f(d, b, c))]))
    def __call__(self, v):
        it = self.it; E = it.E; v = z3.simplify(v); k = v.get_id()
        if k in self.memo: return self.memo[k]
        b = Base(E, "dom_" + self.name, U, lambda w: self.indom(v, w), lambda x, y: self.lt(v, x, y), kind="name")
        br = Base(E, "right_" + self.name, U, lambda w: self.isright(v, w), lambda x, y: self.ltr(v, x, y), kind="name")
        dom = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda w: it.states(self.stv(v, w)))], ordered=True)
        keys = it.keys(dom)
        data = Tensor(E, dom.snap(), lambda X: it.app(self.sym, [v], X, lambda w: it.member_f(keys, w)))
        st = store_like(it, dom, data)
        f = factor_obj(it, "numpy", st, Lst(E, [gen_of(E, br)], "list", inp=f"right variables of {self.name}" if self.inp else None), self.name if self.inp else None)
        f.ident = self.idf(v); f.degen = self.deg(v); f.fam = (self, v); [E.lemma(x) for h in self.inst for x in h(v)]
        self.memo[k] = f; return f
def store_like(it, dom, data):
    "an array store with this domain and table, otherwise as the constructor makes it"
    E = it.E; t = it._tmpl
    if t is None: d0 = Dct(E, [], ordered=True); t = it._tmpl = new_store(it, "numpy", d0, Tensor(E, d0, lambda X: z3.RealVal(0)))
    o = Obj(E, t.cls); o.attrs.update(t.attrs, _domain=dom, _data=data); return o
def free_fam(it, name, self_in=True):
    "arbitrary tables: any variables, any sides, any states"
    E = it.E; ind, rig, tw = E.fresh_fn("indom_" + name, U, U, B), E.fresh_fn("isright_" + name, U, U, B), E.fresh_fn("states_" + name, U, U, U); v, w = z3.Consts("gv gw", U)
    E.lemma(z3.ForAll([v, w], Implies(rig(v, w), ind(v, w)), patterns=[rig(v, w)]))
    if self_in: E.lemma(z3.ForAll([v], ind(v, v), patterns=[ind(v, v)]))
    f = Fam(it, name, lambda v, w: ind(v, w), lambda v, w: rig(v, w), lambda v, w: tw(v, w))
    if self_in: f.inst.append(lambda v: [ind(v, v)])
    return f
def graph_fam(it, name, g):
    "the tables of a consistent model"
    return Fam(it, name, lambda v, w: Or(w == v, And(g.edge(w, v), g.isnode(it, w))), lambda v, w: And(g.edge(w, v), g.isnode(it, w)))

# ---- models
def graph_fix(g):
    g.name = "graph"; return g
def model_obj(it, kind, g, factors, domains, endo=None, cast=True, check=True, inp=None):
    E = it.E; o = Obj(E, it.get_func(NAMES[kind]))
    o.attrs.update(_graph=g, _factors=factors, _domains=domains, _check_factors=check)
    if kind == "scm": o.attrs.update(_endogenous=endo, _cast_multinomial=cast)
    if inp:
        for x in (g, factors, domains, endo):
            if x is not None: x.inp = f"{inp} (graph, tables, domains, roles)"
        o.inp = inp
    return o
def per_node(it, g, val):
    return Dct(it.E, [DGen(s.base, s.c, s.g, val) if isinstance(s, Gen) else DOne(s.v, val(it.uterm(s.v))) for s in g.nodes.segs])
def sym_model(it, kind, name="model", cast=True, check=True):
    "an arbitrary consistent model; for a structural model, the equations of the endogenous variables are degenerate tables"
    E = it.E; g = sym_graph(it, "g_" + name, acyclic=True, inp=False); fam = graph_fam(it, "tables_" + name, g); v = z3.Const("ev", U)
    endo = subset_list(it, "endogenous", g.nodes) if kind == "scm" else None
    if endo is not None: E.lemma(z3.ForAll([v], Implies(it.member_f(endo, v), fam.deg(v)), patterns=[fam.deg(v)]))
    if endo is not None: w = z3.Const("ew", U); E.lemma(Or(it.nonempty_f(endo.segs), z3.ForAll([v, w], Not(And(g.isnode(it, v), g.isnode(it, w), g.edge(v, w))))))      # (the constructor takes the variables with parents then)
    m = model_obj(it, kind, g, per_node(it, g, lambda x: fam(x)), per_node(it, g, lambda x: it.states(x)), endo, cast, check, inp=name)
    m.fam = fam; return m
def mgraph(m): return m.attrs["_graph"]
def mfactors(m): return m.attrs["_factors"]
def mdomains(m): return m.attrs["_domains"]
def same_table_f(it, a, b):
    "formula: the two values are the same object"
    if a is None or b is None: return z3.BoolVal(a is b)
    return zb(it.obj_same(a, b))
def degen_f(f):
    d = getattr(f, "degen", None)
    if d is None: raise Unsupported("degeneracy of this table")
    return d
def lists_same_f(it, a, b):
    "formula: two lists of states have the same elements"
    x = it.E.fresh("s", U); return z3.ForAll([x], it.member_f(a, x) == it.member_f(b, x))

def table_fits_f(it, g, v, f):
    "formula: v alone on the left, exactly its parents on the right"
    y = it.E.fresh("y", U)
    return z3.ForAll([y], And(is_right(it, f, y) == And(g.edge(y, v), g.isnode(it, y)), is_left(it, f, y) == (y == v)))
def fdomain_at(it, f, w):
    "list of the states of w in the table f"
    return it.dget(fdom(it, f), S(w, "name"))
def kinds_f(it, f, scm, endo, v):
    if not scm: return z3.BoolVal(True)
    return Or(Not(it.member_f(endo, v)), degen_f(f) if f.cls.name != "DeterministicFactor" else z3.BoolVal(True))
def forall_f(it, has, body, name="q"):
    "formula: body(w) for every w with has(w); the body may branch"
    E = it.E; w = E.fresh(name, U)
    def run(): E.require(has(w)); return zb(body(w))
    outs = E.explore(run)
    for o in outs:
        if o.kind == "raise": raise Unsupported(f"exception inside a formula: {o.val}")
    return z3.ForAll([w], Implies(has(w), conj([Implies(o.cond, o.val) for o in outs])))

def set_ok_f(it, m, v, f):
    "formula: the table f may be set for v in the model m"
    g, D, F_ = mgraph(m), mdomains(m), mfactors(m); E = it.E; scm = m.cls.name == "StructuralCausalModel"
    def dom_ok(w):
        d = it.dget(D, S(w, "name"), None)
        return True if d is None else lists_same_f(it, d, fdomain_at(it, f, w))
    def child_ok(c):
        h = it.dget(F_, S(c, "name"), None)
        if h is None or not E.decide(is_var(it, f, v)): return True
        if not E.decide(is_var(it, h, v)): return True
        return lists_same_f(it, fdomain_at(it, h, v), fdomain_at(it, f, v))
    return And(table_fits_f(it, g, v, f), forall_f(it, lambda w: is_var(it, f, w), dom_ok), forall_f(it, lambda c: And(g.edge(v, c), g.isnode(it, c)), child_ok),
               kinds_f(it, f, scm, m.attrs.get("_endogenous"), v) if scm else z3.BoolVal(True))
def snap_model(m): return (m.attrs["_graph"], list(mfactors(m).segs), list(mfactors(m).ovr), list(mdomains(m).segs), list(mdomains(m).ovr), m.attrs.get("_endogenous"))
def same_snap(m, s):
    n = snap_model(m)
    return n[0] is s[0] and n[5] is s[5] and all(len(a) == len(b) and all(x is y for x, y in zip(a, b)) for a, b in zip(n[1:5], s[1:5]))
def partial_model(it, kind, check=True, cast=True):
    "a model some of whose tables may be missing; the tables and domains it has may be any"
    E = it.E; g = sym_graph(it, "g", acyclic=True, inp=False); g.inp = "graph of the model"
    fam = free_fam(it, "tables"); has, known, st = E.fresh_fn("has_table", U, B), E.fresh_fn("known", U, B), E.fresh_fn("states_model", U, U)
    endo = subset_list(it, "endogenous", g.nodes, inp="endogenous variables") if kind == "scm" else None
    m = model_obj(it, kind, g, per_node(it, g, lambda x: fam(x) if E.decide(has(x)) else None), per_node(it, g, lambda x: it.states(st(x)) if E.decide(known(x)) else None), endo, cast, check)
    return m
def any_table(it, name="f", det=False):
    "a table (or a deterministic function) over any variables, with any sides and states"
    E = it.E; fam = free_fam(it, name, self_in=False); x = E.fresh("id_" + name, U); f = fam(x)
    if not det: return f
    o = Obj(E, it.get_func(DET), inp=name); o.attrs.update(_domain=fdom(it, f), _variables=f.attrs["_variables"], _right_vars=fright(it, f), vtype="numpy", _store=Opaque("values of a function")); o.ident = f.ident
    return o
@register
class ToMultinomial(Contract):
    key = DET + ".to_multinomial"; trusted = True; why_trusted = "the table of a function has its domain and sides and is degenerate; the values are checked in bounded form (C15)"
    def use(self, it, p):
        f = p["self"]; E = it.E
        if "table" not in f.__dict__:
            dom = fdom(it, f); keys = it.keys(dom); sym = ("tab", "cast", E.birth())
            r = f.table = factor_obj(it, "numpy", store_like(it, Dct(E, list(dom.segs), ordered=True), Tensor(E, dom, lambda X: it.app(sym, [], X, lambda w: it.member_f(keys, w)))), Lst(E, fright(it, f).segs, "list"))
            r.ident = z3.Function("table_of_function", U, U)(f.ident); r.degen = z3.BoolVal(True)
        return f.table

def cast_of(it, m, v, f):
    "what is stored for a table or function f of v: a function of an endogenous variable may be cast"
    if f.cls.name == "DeterministicFactor" and m.cls.name == "StructuralCausalModel" and m.attrs["_cast_multinomial"] and it.E.decide(it.member_f(m.attrs["_endogenous"], v)): return REG[DET + ".to_multinomial"].use(it, dict(self=f))
    return f
class SetFactor(Contract):
    props = ("C14", "C05")
    def args(self, it, case):
        kind = self.kind; m = partial_model(it, kind, check=case != "unchecked", cast=case != "function kept"); E = it.E; v = E.fresh("v", U); E.require(mgraph(m).isnode(it, v))
        f = any_table(it, det="function" in str(case))
        if case == "unchecked": E.require(is_var(it, f, v))
        return dict(self=m, var=S(v, "name"), f=f), (v, snap_model(m), mfactors(m).snap(), mdomains(m).snap())
    def call(self, it, fn, a):
        # the condition is about the model before the call
        self.ok = set_ok_f(it, a[0]["self"], a[1][0], a[0]["f"]); return it.call_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; m, f = a[0]["self"], a[0]["f"]; v, s, F0, D0 = a[1]; n = f"{self.kind} set_factor ({case}): "
        if out.kind == "raise":
            E.record(n + "a rejected table leaves the model as it was", same_snap(m, s))
            if case == "unchecked": no_exc(it, out, n + "no exception")
            else: E.prove(Not(self.ok), n + "a table that fits the model is accepted")
            return
        if case != "unchecked": E.prove(self.ok, n + "a table that does not fit the graph, the roles or the known domains is rejected")
        E.record(n + "graph and roles stay", mgraph(m) is s[0] and m.attrs.get("_endogenous") is s[5])
        x = E.fresh("x", U); F1, D1 = mfactors(m), mdomains(m)
        def entries():
            E.require(mgraph(m).isnode(it, x)); new = it.dget(F1, S(x, "name"), None); old = it.dget(F0, S(x, "name"), None)
            if E.decide(x == v): E.prove(same_table_f(it, new, cast_of(it, m, v, f)), n + "the table is set for its variable")
            else: E.prove(same_table_f(it, new, old), n + "the other tables stay")
            dn, do = it.dget(D1, S(x, "name"), None), it.dget(D0, S(x, "name"), None)
            if dn is None: E.prove(And(zb(do is None), x != v), n + "domains stay known")
            elif do is None: E.prove(And(x == v, lists_same_f(it, dn, fdomain_at(it, f, v))) if E.valid(is_var(it, f, v)) is True else x == v, n + "only the domain of the variable becomes known")
            else: E.prove(lists_same_f(it, dn, do), n + "known domains stay")
        E.explore(entries)
        for d in (F1, D1): E.prove(it.same_keys_f(it.keys(d), mgraph(m).nodes), n + "one entry per variable of the graph")
    def use(self, it, p):
        m, f = p["self"], p["f"]; E = it.E; v = it.uterm(p["var"]); D, F_ = mdomains(m), mfactors(m); check = m.attrs["_check_factors"]
        if not isinstance(f, Obj) or f.cls.name not in ("MultinomialFactor", "DeterministicFactor"): raise Unsupported("table of another kind")
        if check is False:
            if E.valid(And(mgraph(m).isnode(it, v), is_var(it, f, v))) is not True: raise Unsupported("model without checks: variable that it lacks")
            f = cast_of(it, m, v, f)
        else:
            if not E.decide(mgraph(m).isnode(it, v)): raise PyRaise("NetworkXError")
            ok = set_ok_f(it, m, v, f); f = cast_of(it, m, v, f)
            if E.valid(ok) is not True and not E.decide(ok): raise PyRaise("ValueError", "inconsistent table")
        if it.dget(D, S(v, "name"), None) is None: it.dset(D, S(v, "name"), fdomain_at(it, f, v))
        it.dset(F_, S(v, "name"), f); return None
@register
class SetFactorPG(SetFactor): key = PG + ".set_factor"; kind = "bn"; cases = ("checked", "unchecked")
@register
class SetFactorSCM(SetFactor): key = SCM + ".set_factor"; kind = "scm"; cases = ("checked", "function cast", "function kept", "unchecked")

@register
class IsDegenerate(Contract):
    key = "bcause.factors.factor:DiscreteFactor.is_degenerate"; trusted = True; why_trusted = "whether all values are 0 or 1 is kept as a property of the table; the function itself is checked in bounded form (C15)"
    def use(self, it, p): return S(degen_f(p["self"]))

# ---- a model from its tables
class SetAll(ForInv):
    label = "_set_factors loop"; checked = True
    def objects(self, it): return [mfactors(self.m), mdomains(self.m)]
    def assume(self, it, P):
        E = it.E; m, fam, K = self.m, self.fam, self.K; g = mgraph(m); x, w = z3.Consts("ax aw", U)
        F1 = per_node(it, g, lambda y: fam(y) if E.decide(P(y)) else None); D1 = per_node(it, g, lambda y: it.states(fam.stv(y, y)) if E.decide(P(y)) else None)
        mfactors(m).set(F1.segs, F1.ovr); mdomains(m).set(D1.segs, D1.ovr)
        for what, f in self.facts(it, P): E.fact(f)
    def facts(self, it, P):
        "what is true of the tables already set"
        m, fam = self.m, self.fam; g = mgraph(m); x, w, s = z3.Consts("ax aw as", U); scm = self.scm
        if not m.attrs["_check_factors"]: return
        yield "tables fit the graph", z3.ForAll([x, w], Implies(P(x), And(fam.isright(x, w) == And(g.edge(w, x), g.isnode(it, w)), And(fam.indom(x, w), Not(fam.isright(x, w))) == (w == x))))
        yield "tables agree on the domains", z3.ForAll([x, w, s], Implies(And(P(x), P(w), fam.indom(x, w)), st_in(fam.stv(x, w), s) == st_in(fam.stv(w, w), s)))
        if scm: yield "equations are degenerate", z3.ForAll([x], Implies(And(P(x), it.member_f(m.attrs["_endogenous"], x)), fam.deg(x)))
    def claim(self, it, P):
        E = it.E; m, fam = self.m, self.fam; g = mgraph(m); x = E.fresh("cx", U)
        def entry(y):
            f, d = it.dget(mfactors(m), S(y, "name"), None), it.dget(mdomains(m), S(y, "name"), None)
            if not E.decide(P(y)): return f is None and d is None
            return And(same_table_f(it, f, fam(y)) if f is not None else z3.BoolVal(False), zb(it.seq_eq(d, it.states(fam.stv(y, y)))) if d is not None else z3.BoolVal(False))
        out = [("tables and domains of the visited variables are set, the others are not", E.merge_bool(lambda: zb(entry(x)) if E.decide(g.isnode(it, x)) else z3.BoolVal(True)))]
        out.append(("one entry per variable of the graph", And(it.same_keys_f(it.keys(mfactors(m)), g.nodes), it.same_keys_f(it.keys(mdomains(m)), g.nodes))))
        return out + list(self.facts(it, P))
    def all_ok(self, it): return conj([f for w, f in self.facts(it, lambda y: it.member_f(self.K, y))])
@register
class SetFactors(Contract):
    key = DAGM + "._set_factors"; props = ("C14", "C08"); cases = ("bn/dict", "bn/list", "scm/dict", "scm/list", "bn/dict/unchecked", "scm/dict/unchecked"); helper = True; inv = SetAll()
    loops = {(key, 0): inv, (key, 1): inv}
    def args(self, it, case):
        kind, form, *rest = case.split("/"); E = it.E; g = sym_graph(it, "g", acyclic=True, inp=False); g.inp = "graph of the model"
        endo = subset_list(it, "endogenous", g.nodes, inp="endogenous variables") if kind == "scm" else None
        m = model_obj(it, kind, g, per_node(it, g, lambda x: None), per_node(it, g, lambda x: None), endo, check=not rest)
        fam = free_fam(it, "table"); v = z3.Const("v", U)
        K = subset_list(it, "given", g.nodes); b = K.segs[0].base; self.inv.m, self.inv.fam, self.inv.K, self.inv.scm = m, fam, K, kind == "scm"
        if form == "list": E.fact(z3.ForAll([v], Not(fam.isright(v, v)))); fam.inst.append(lambda v: [Not(fam.isright(v, v))]); fs = Lst(E, [gen_of(E, b, lambda x: fam(x))], "list", inp="factors argument")
        else: fs = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda x: fam(x))], inp="factors argument")
        return dict(self=m, factors=fs), None
    def post(self, it, case, a, out):
        E = it.E; inv = self.inv; m, fam, K = inv.m, inv.fam, inv.K; n = f"_set_factors ({case}): "; ok = inv.all_ok(it)
        if out.kind == "raise": E.prove(Not(ok), n + "consistent tables are accepted"); E.record(n + "tables that do not fit raise ValueError", out.val.cls == "ValueError"); return
        E.prove(ok, n + "tables that do not fit the graph, the roles or each other's domains are rejected")
        x = E.fresh("x", U)
        def entry():
            E.require(mgraph(m).isnode(it, x)); f, d = it.dget(mfactors(m), S(x, "name"), None), it.dget(mdomains(m), S(x, "name"), None)
            if E.decide(it.member_f(K, x)):
                E.prove(same_table_f(it, f, fam(x)), n + "the table given for a variable is set"); E.prove(zb(it.seq_eq(d, it.states(fam.stv(x, x)))) if d is not None else z3.BoolVal(False), n + "the domain of the variable is that of its table")
            else: E.record(n + "nothing is set for the other variables", f is None and d is None)
        E.explore(entry)
    def use(self, it, p):
        m, fs = p["self"], p["factors"]; E = it.E; g = mgraph(m); x = E.fresh("x", U)
        def empty():
            E.require(g.isnode(it, x)); return it.dget(mfactors(m), S(x, "name"), None) is None and it.dget(mdomains(m), S(x, "name"), None) is None
        if not all(o.kind == "ok" and o.val for o in E.explore(empty)): raise Unsupported("_set_factors of a model with tables")
        K, at = tables_arg(it, fs); put = set_all(it, m, K, at, m.attrs["_check_factors"]); ok = put.ok
        if E.valid(ok) is not True:
            if not m.attrs["_check_factors"]: raise Unsupported("_set_factors of a model without checks: variables that it lacks")
            if not E.decide(ok): raise PyRaise("ValueError", "inconsistent tables")
        mfactors(m).set(put.F.segs, put.F.ovr); mdomains(m).set(put.D.segs, put.D.ovr); return None
def tables_arg(it, fs):
    "the variables for which tables are given (list), and the table of each"
    E = it.E
    if isinstance(fs, Dct): return it.keys(fs), lambda v: it.dget(fs, S(v, "name"))
    if isinstance(fs, Lst) and len(fs.segs) == 1 and isinstance(fs.segs[0], Gen) and fs.segs[0].base.sort == U:
        s = fs.segs[0]; x, y = E.fresh("x", U), E.fresh("y", U)
        def one():
            E.require(s.has(x)); f = s.elem(x); return isinstance(f, Obj) and E.valid(is_left(it, f, y) == (y == x)) is True
        if all(o.kind == "ok" and o.val for o in E.explore(one)): return Lst(E, [Gen(s.base, s.c, s.g)]), s.elem
    raise Unsupported("tables given in another form")
class Put: pass
def set_all(it, m, K, at, check=True):
    """what a model is after the tables at(v), v in K, are set in an empty model; ok: the condition under which they are accepted (without checks:
    under which no other entries are made)"""
    E = it.E; g = mgraph(m); scm = m.cls.name == "StructuralCausalModel"; inK = lambda v: it.member_f(K, v); p = Put()
    def one(v):
        f = at(v)
        if not isinstance(f, Obj) or f.cls.name not in ("MultinomialFactor", "DeterministicFactor"): raise Unsupported("table of another kind")
        if f.cls.name == "DeterministicFactor" and not (scm and m.attrs["_cast_multinomial"]): raise Unsupported("tables of a model with functions")
        if not E.decide(g.isnode(it, v)): return False
        if not check: return is_var(it, f, v)
        w = E.fresh("w", U)
        def agree(): E.require(And(is_var(it, f, w), inK(w))); return lists_same_f(it, fdomain_at(it, f, w), fdomain_at(it, at(w), w))
        outs = E.explore(agree)
        if any(o.kind == "raise" for o in outs): raise Unsupported("exception inside a formula")
        return And(table_fits_f(it, g, v, f), kinds_f(it, f, scm, m.attrs.get("_endogenous"), v), z3.ForAll([w], Implies(And(is_var(it, f, w), inK(w)), conj([Implies(o.cond, o.val) for o in outs]))))
    p.ok = forall_f(it, inK, one, "given")
    p.F = per_node(it, g, lambda v: cast_of(it, m, v, at(v)) if E.decide(inK(v)) else None)
    p.D = per_node(it, g, lambda v: fdomain_at(it, at(v), v) if E.decide(inK(v)) else None)
    return p
def prove_tables(it, m, K, at, n, same=True):
    E = it.E; x = E.fresh("x", U)
    def entry():
        E.require(mgraph(m).isnode(it, x)); f, d = it.dget(mfactors(m), S(x, "name"), None), it.dget(mdomains(m), S(x, "name"), None)
        if E.decide(it.member_f(K, x)):
            g = at(x); E.prove(same_table_f(it, f, cast_of(it, m, x, g)), n + "the table given for a variable is set"); E.prove(lists_same_f(it, d, fdomain_at(it, g, x)) if d is not None else z3.BoolVal(False), n + "the domain of the variable is that of its table")
        else: E.record(n + "nothing is set for the other variables", f is None and d is None)
    E.explore(entry)
    for d in (mfactors(m), mdomains(m)): E.prove(it.same_keys_f(it.keys(d), mgraph(m).nodes), n + "one entry per variable of the graph")
class InitModel(Contract):
    "a model is made from a directed acyclic graph and tables that fit it; anything else is rejected"
    props = ("C14", "C10", "C05", "C08"); cost = 2
    def args(self, it, case):
        E = it.E; form, *rest = case.split("/"); g = sym_graph(it, "g", inp=False); g.inp = "graph argument"; a = dict(dag=g); scm = self.kind == "scm"
        if form == "not directed": g.und = True; e = g.edge; g.edge = lambda x, y: Or(e(x, y), e(y, x)); return a, (None, None)
        if scm and "endogenous" in rest: a["endogenous"] = subset_list(it, "endogenous", g.nodes, inp="endogenous argument")
        K, fam = Lst(E, []), None
        if form != "no tables":
            fam = free_fam(it, "table"); K = subset_list(it, "given", g.nodes); b = K.segs[0].base; v = z3.Const("v", U)
            if form == "list": E.fact(z3.ForAll([v], Implies(b.mem(v), z3.ForAll([y_], And(fam.indom(v, y_), Not(fam.isright(v, y_))) == (y_ == v))))); a["factors"] = Lst(E, [gen_of(E, b, lambda x: fam(x))], "list", inp="factors argument")
            else: a["factors"] = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda x: fam(x))], inp="factors argument")
        if "no cast" in rest: a["cast_multinomial"] = False
        if "unchecked" in rest: a["check_factors"] = False
        return a, (K, fam)
    def call(self, it, fn, a):
        self.o = Obj(it.E, it.get_func(NAMES[self.kind])); it.call_func(fn, [self.o], dict(a[0])); return self.o
    def endo(self, it, a, g):
        "formula: x is endogenous"
        E = it.E; given = a.get("endogenous"); y = z3.Const("py", U)
        default = lambda x: And(g.isnode(it, x), z3.Exists([y], And(g.isnode(it, y), g.edge(y, x))))
        return default if given is None else lambda x: If(it.nonempty_f(given.segs), it.member_f(given, x), default(x))
    def post(self, it, case, a, out):
        E = it.E; p, (K, fam) = a; n = f"{self.kind} from graph and tables ({case}): "; m = self.o; g = p["dag"]
        if getattr(g, "und", False): E.record(n + "something that is not a directed graph is rejected", out.kind == "raise"); return
        ref = Obj(E, it.get_func(NAMES[self.kind])); en = self.endo(it, p, g)
        ref.attrs.update(_graph=g, _endogenous=self.endo_list(it, p, g), _cast_multinomial=p.get("cast_multinomial", True)); check = p.get("check_factors", True)
        ok = And(Not(lib.cyclic_f(it, g)), set_all(it, ref, K, fam, check).ok if fam else z3.BoolVal(True))
        if out.kind == "raise": E.prove(Not(ok), n + "an acyclic graph with tables that fit is accepted"); return
        E.prove(ok, n + "cyclic graphs and tables that do not fit the graph, the roles or each other are rejected")
        E.record(n + "the graph is the one given", mgraph(m) is g or E.valid(lib.graph_same_f(it, mgraph(m), g)) is True); x = E.fresh("x", U)
        if self.kind == "scm":
            E.prove(it.member_f(m.attrs["_endogenous"], x) == en(x), n + "endogenous variables: those given, else the ones with parents"); E.record(n + "casting of functions", m.attrs["_cast_multinomial"] is p.get("cast_multinomial", True))
        E.record(n + "later tables are checked unless it is asked not to", m.attrs["_check_factors"] is check)
        if fam is None: fam = lambda x: None
        prove_tables(it, m, K, fam, n)
    def endo_list(self, it, p, g):
        E = it.E; given = p.get("endogenous"); en = self.endo(it, p, g)
        if given is not None and E.valid(it.nonempty_f(given.segs)) is True: return given
        segs = g.nodes.segs if given is None else list(given.segs) + g.nodes.segs
        if given is None: return Lst(E, [Gen(s.base, s.c, z3.simplify(And(s.g, en(s.c)))) if isinstance(s, Gen) else s for s in g.nodes.segs if isinstance(s, Gen) or E.decide(en(it.uterm(s.v)))], "list")
        if E.decide(it.nonempty_f(given.segs)): return given
        return self.endo_list(it, {}, g)
    def use(self, it, p):
        E = it.E; g = p["dag"]; o = p["self"]
        if not isinstance(g, lib.GraphV) or getattr(g, "und", False): raise Unsupported("graph of a model")
        check = p.get("check_factors", True)
        if check not in (True, False): raise Unsupported("model with or without checks")
        c = lib.cyclic_f(it, g)
        if E.valid(Not(c)) is not True and E.decide(c): raise PyRaise("ValueError", "cycle")
        o.attrs.update(_graph=g, _check_factors=check, _factors=per_node(it, g, lambda v: None), _domains=per_node(it, g, lambda v: None))
        if self.kind == "scm": o.attrs.update(_endogenous=self.endo_list(it, {} if p.get("endogenous") is None else dict(endogenous=Lst(E, it.iter_segs(p["endogenous"]))), g), _cast_multinomial=p.get("cast_multinomial", True))
        if p.get("factors") is not None: REG[DAGM + "._set_factors"].use(it, dict(self=o, factors=p["factors"]))
        return None
y_ = z3.Const("y_", U)
@register
class InitBN(InitModel): key = BN + ".__init__"; kind = "bn"; cases = ("no tables", "dict", "list", "not directed", "dict/unchecked")
@register
class InitSCM(InitModel): key = SCM + ".__init__"; kind = "scm"; cases = ("no tables", "dict", "list", "dict/endogenous", "list/endogenous", "dict/no cast", "not directed", "dict/unchecked")

# ---- interventions
@register
class Constant(Contract):
    "the table that gives probability one to a state of the only left variable"
    key = F + ".constant"; props = ("C10", "C14"); cases = tuple(VT)
    def args(self, it, case): return dict(self=sym_factor(it, VT[case], "self"), left_value=S(it.E.fresh("state", U), "state")), None
    def post(self, it, case, a, out):
        E = it.E; f, s = a[0]["self"], a[0]["left_value"].t; n = f"constant ({case}): "; y = z3.Const("cy", U)
        some = z3.Exists([y], is_left(it, f, y)); v = E.fresh("v", U)
        one = And(some, z3.ForAll([y], Implies(is_left(it, f, y), y == v)), is_left(it, f, v))
        ok = And(one, st_in(v, s))
        if out.kind == "raise": E.prove(Not(ok), n + "a state of the only left variable is accepted"); E.record(n + "otherwise ValueError or IndexError", out.val.cls in ("ValueError", "IndexError")); return
        r = out.val
        if not is_factor(it, r, VT[case], n): return
        w = E.fresh("w", U); u = z3.Const("cu", U)
        E.prove(z3.Exists([y], And(is_left(it, f, y), st_in(y, s), z3.ForAll([u], Implies(is_left(it, f, u), u == y)))), n + "several left variables, none, or an unknown state are rejected")
        E.require(is_left(it, f, v)); X = it.valuation()
        E.prove(is_var(it, r, w) == (w == v), n + "the only variable is the left one"); prove_factor(it, r, n); E.prove(Not(is_right(it, r, w)), n + "no right variables")
        E.prove(lists_same_f(it, fdomain_at(it, r, v), fdomain_at(it, f, v)), n + "the states of the variable")
        E.prove(fval(it, r, X) == If(it.lam_at(X, v) == s, z3.RealVal(1), z3.RealVal(0)), n + "one for the state, zero elsewhere")
    def use(self, it, p):
        E = it.E; f, s = p["self"], it.uterm(p["left_value"]); y = z3.Const("cy", U); z = z3.Const("cz", U)
        if f.cls.name != "MultinomialFactor": raise Unsupported("constant of a function")
        memo = f.__dict__.setdefault("constants", {}); k = s.get_id()
        v = f.fam[1] if hasattr(f, "fam") else None
        if v is None or E.valid(z3.ForAll([y], is_left(it, f, y) == (y == v))) is not True:
            left = filtered(it, fdom(it, f), lambda w: z3.simplify(is_left(it, f, w)))
            if E.decide(Not(it.nonempty_f(it.keys(left).segs))): raise PyRaise("IndexError", "no left variable")
            v = it.uterm(it.first(it.keys(left)))
        if E.valid(z3.ForAll([y], Implies(is_left(it, f, y), y == v))) is not True and not E.decide(z3.ForAll([y], Implies(is_left(it, f, y), y == v))): raise PyRaise("ValueError", "several left variables")
        l = fdomain_at(it, f, v); ok = it.member_f(l, s)
        if E.valid(ok) is not True and not E.decide(ok): raise PyRaise("ValueError", "value not in domain")
        if k in memo: return memo[k]      # (the same object for the same state; the decisions above are made every time)
        dom = Dct(E, [DOne(S(v, "name"), l)], ordered=True)
        r = memo[k] = factor_obj(it, kind_of(it, fstore(f)), store_like(it, dom, Tensor(E, dom, lambda X: If(it.lam_at(X, v) == s, z3.RealVal(1), z3.RealVal(0)))), Lst(E, [], "list"))
        r.degen = z3.BoolVal(True); r.onehot = (v, s); r.ident = E.fresh("constant", U); return r

class Uses(Contract):
    "a method that is executed in its callers"
def graph_same(it, g, h): return g is h or it.E.valid(lib.graph_same_f(it, g, h)) is True
@register
class Intervention(Contract):
    key = SCM + ".intervention"; props = ("C10", "C05"); cases = ("any", "no cast"); cost = 2
    def args(self, it, case):
        m = sym_model(it, "scm", cast=case != "no cast"); return dict(self=m, obs=observation(it)), m.fam
    def call(self, it, fn, a): return it.call_func(fn, [a[0]["self"]], {"**": [a[0]["obs"]]})
    def post(self, it, case, a, out):
        E = it.E; m, obs = a[0]["self"], a[0]["obs"]; fam = a[1]; g = mgraph(m); n = f"intervention ({case}): "; hit = lambda v: zb(it.has_key(obs, S(v)))
        good = obs_in_domain(it, obs, lambda w: g.isnode(it, w))
        if out.kind == "raise": E.prove(Not(good), n + "no exception when the states are in the domains"); return
        r = out.val
        ok = isinstance(r, Obj) and r.cls.name == "StructuralCausalModel" and r is not m; E.record(n + "returns another structural model", ok)
        if not ok: return
        E.prove(good, n + "a state outside of the domain is rejected")
        prove_graph(it, mgraph(r), g.nodes, lambda x, y: And(g.edge(x, y), Not(hit(y))), n)
        x = E.fresh("x", U); E.prove(it.member_f(r.attrs["_endogenous"], x) == it.member_f(m.attrs["_endogenous"], x), n + "the same endogenous variables")
        E.record(n + "functions are cast as in the model", r.attrs["_cast_multinomial"] is m.attrs["_cast_multinomial"]); E.record(n + "later tables are checked", r.attrs["_check_factors"] is True)
        def entry():
            E.require(g.isnode(it, x)); f = it.dget(mfactors(r), S(x, "name"), None)
            if f is None: E.record(n + "every variable has a table", False); return
            E.prove(lists_same_f(it, it.dget(mdomains(r), S(x, "name")), it.states(x)), n + "the same domains")
            if E.decide(hit(x)):
                s = it.uterm(it.dget(obs, S(x, "name"))); w = E.fresh("w", U); X = it.valuation()
                E.prove(is_var(it, f, w) == (w == x), n + "the table of a variable that was set has no parents"); E.prove(Not(is_right(it, f, w)), n + "the variable that was set is on the left")
                E.prove(fval(it, f, X) == If(it.lam_at(X, x) == s, z3.RealVal(1), z3.RealVal(0)), n + "the variable that was set takes the state with probability one")
            else: E.prove(same_table_f(it, f, fam(x)), n + "the other mechanisms stay")
        E.explore(entry)
        for d in (mfactors(r), mdomains(r)): E.prove(it.same_keys_f(it.keys(d), g.nodes), n + "one entry per variable of the graph")
    def use(self, it, p):
        r = it.run_func(it.get_func(self.key), [p["self"]], {"**": [p["obs"]]})
        if isinstance(r, Obj): r.interv = (p["self"], p["obs"].snap())
        return r
class CopyModel(Contract):
    key = DAGM + ".copy"; props = ("C05", "C14"); cases = ("bn", "scm", "scm no cast")
    def args(self, it, case):
        m = sym_model(it, case.split()[0], cast="no cast" not in case); return dict(self=m), m.fam
    def want(self, it, a): m = a[0]["self"]; return m, mgraph(m), lambda x: z3.BoolVal(True)
    name = "copy"
    def post(self, it, case, a, out):
        E = it.E; m = a[0]["self"]; fam = a[1]; n = f"{self.name} ({case}): "
        if no_exc(it, out, n + "no exception"): return
        r = out.val; ok = isinstance(r, Obj) and r.cls is m.cls and r is not m; E.record(n + "returns another model of the same class", ok)
        if not ok: return
        g, keep = self.want(it, a)[1:]; x = E.fresh("x", U)
        prove_graph(it, mgraph(r), lib.filter_nodes(it, g.nodes, keep), g.edge, n)
        if case != "bn":
            E.prove(it.member_f(r.attrs["_endogenous"], x) == And(it.member_f(m.attrs["_endogenous"], x), keep(x)), n + "the same roles")
            E.record(n + "functions are cast as in the model", r.attrs["_cast_multinomial"] is m.attrs["_cast_multinomial"])
        def entry():
            E.require(mgraph(r).isnode(it, x)); f = it.dget(mfactors(r), S(x, "name"), None)
            E.prove(same_table_f(it, f, fam(x)), n + "the same tables"); E.prove(lists_same_f(it, it.dget(mdomains(r), S(x, "name")), it.states(x)), n + "the same domains")
        E.explore(entry); E.record(n + "setting a table in the result does not change the model", mfactors(r) is not mfactors(m) and mdomains(r) is not mdomains(m))
        for d in (mfactors(r), mdomains(r)): E.prove(it.same_keys_f(it.keys(d), mgraph(r).nodes), n + "one entry per variable of the graph")
    def use(self, it, p): return it.run_func(it.get_func(self.key), list(p.values()), {})
register(CopyModel)
@register
class SubModel(CopyModel):
    "a subset of variables that contains the parents of each of its members"
    key = DAGM + ".submodel"; name = "submodel"; props = ("C14", "C05", "C08")
    def args(self, it, case):
        E = it.E; a, fam = CopyModel.args(self, it, case); m = a["self"]; g = mgraph(m); l = subset_list(it, "nodes", g.nodes, inp="nodes argument"); x, y = z3.Consts("sx sy", U)
        E.fact(z3.ForAll([x, y], Implies(And(it.member_f(l, y), g.edge(x, y)), it.member_f(l, x))))
        if case != "bn": E.require(z3.Exists([x], And(it.member_f(l, x), it.member_f(m.attrs["_endogenous"], x))))
        return dict(a, nodes=l), fam
    def want(self, it, a): m, l = a[0]["self"], a[0]["nodes"]; return m, mgraph(m), lambda x: it.member_f(l, x)
