"""Sampling from tables (C20): one record is drawn among the joint assignments of positive value; as many as asked for.
The generator of random numbers (numpy.random.choice) is assumed to return an element of positive probability."""
from .base import *
from .factors import *
class Drawn:
    "a record that the contract of _sample describes"
    def __init__(self, f, names): self.f, self.names = f, names
@register
class Sample1(Contract):
    "a state of every variable, in an assignment of positive value; conditional tables are refused"
    key = F + "._sample"; props = ("C20",); cases = tuple(f"{k}/{v}" for k in KINDS for v in ("default", "names", "states", "conditional"))
    def args(self, it, case):
        kind, form = case.split("/"); E = it.E; st = sym_store(it, kind, "st", None, True); a = E.fresh("some", ASG); f = factor_obj(it, kind, st, Lst(E, []) if form != "conditional" else subset_list(it, "right", it.keys(dom_of(it, st))), "factor")
        keys = fkeys(it, f)
        if form == "conditional": E.require(it.nonempty_f(fright(it, f).segs))
        Y = it.valuation(); E.assumptions.add("the values of the table are non-negative and not all 0")
        b = it.product_of(fdom(it, f)); y = z3.Const("py", ASG); at = lambda y: fval(it, f, it.merge_asg(Y, lambda w: it.member_f(keys, w), y))
        E.require(z3.ForAll([y], Implies(b.mem(y), at(y) >= 0))); E.require(b.mem(a)); E.require(at(a) > 0); it.table_facts = lambda y: E.fact(Implies(b.mem(y), at(y) >= 0)); it.table_witnesses = [a]
        p = dict(self=f)
        if form != "default": p["varnames"] = form != "states"
        return p, (f, form)
    def post(self, it, case, a, out):
        E = it.E; f, form = a[1]; n = f"_sample ({case}): "
        if form == "conditional": E.record(n + "a conditional table is refused", out.kind == "raise"); return
        if no_exc(it, out, n + "no exception"): return
        r, w, X = out.val, E.fresh("w", U), it.valuation(); x = z3.Const("sx", U); keys = fkeys(it, f)
        if form == "states":
            if not isinstance(r, lib.AsgTuple): raise Unsupported("states in another form")
            E.prove(it.same_keys_f(it.keys(r.axes), keys), n + "the states of the variables in order"); at = lambda x: ap(r.a, x)
        else:
            E.record(n + "a record", isinstance(r, Dct))
            if not isinstance(r, Dct): return
            E.prove(zb(it.has_key(r, S(w, "name"))) == it.member_f(keys, w), n + "of exactly the variables of the table"); r = r.snap()
            at = lambda x: E.merge_term(lambda: (E.require(zb(it.has_key(r, S(x, "name")))), it.uterm(it.dget(r, S(x, "name"))))[1])
        E.prove(Implies(it.member_f(keys, w), st_in(w, at(w))), n + "a state of the domain for each variable")
        E.prove(Implies(z3.ForAll([x], Implies(it.member_f(keys, x), it.lam_at(X, x) == at(x))), fval(it, f, X) > 0), n + "an assignment of positive value")
    def use(self, it, p):
        f = p["self"]
        if it.E.decide(it.nonempty_f(fright(it, f).segs)): raise PyRaise("NotImplementedError", "conditional table")
        return Drawn(f, p["varnames"])
@register
class SampleN(Contract):
    "as many records as asked for, each drawn from this table"
    key = F + ".sample"; props = ("C20",); cases = ("default", "names", "states", "no size")
    def args(self, it, case):
        E = it.E; it.int_ranges = True; f = factor_obj(it, "numpy", sym_store(it, "numpy", "st", None, True), Lst(E, []), "factor"); n = E.fresh("size", I); p = dict(self=f)
        if case != "no size": p["size"] = S(n)
        else: E.require(n == 1)
        if case in ("names", "states"): p["varnames"] = case == "names"
        return p, (f, n)
    def post(self, it, case, a, out):
        E = it.E; f, size = a[1]; n = f"sample ({case}): "
        if out.kind == "raise": E.prove(size < 1, n + "refused only if no records are asked for", note=str(out.val)); return
        E.prove(size >= 1, n + "sizes below one are refused"); r = out.val
        if not isinstance(r, Lst): raise Unsupported("samples in another form")
        if r.concrete: E.prove(size == len(r.items), n + "as many records as asked for"); el = r.items
        else:
            if len(r.segs) != 1 or not hasattr(r.segs[0].base, "upto") or not z3.is_true(z3.simplify(r.segs[0].g)): raise Unsupported("samples in another form")
            s = r.segs[0]; E.prove(s.base.upto == size, n + "as many records as asked for"); i = E.fresh("i", I); el = [o.val for o in E.explore(lambda: (E.require(s.has(i)), s.elem(i))[1]) if o.kind == "ok"]
        for x in el:
            if not isinstance(x, Drawn): raise Unsupported("samples in another form")
            E.record(n + "each is drawn from this table", x.f is f); E.record(n + "in the form asked for", x.names is (case != "states"))
    def use(self, it, p): raise Unsupported("sample")

# ---- one sample per observation
class Records:
    "a data frame made from a list of records over the same columns; dist: each record once"
    def __init__(self, src, cols, key, val, dist=False): self.src, self.cols, self.key, self.val, self.dist = src, cols, key, val, dist
    def vc_attr(self, it, k):
        E = it.E
        if k == "drop_duplicates": return lib.Callable_(lambda: Records(self.src, self.cols, self.key, self.val, True))
        if k == "keys": return lib.Callable_(lambda: Lst(E, it.keys(self.cols).segs, "keys"))
        if k == "columns": return Lst(E, it.keys(self.cols).segs, "list")
        if k == "values":
            if not self.dist: raise Unsupported("rows of a data frame that may repeat")
            j, x = z3.Const("rj", U), z3.Const("rx", U); seg, val, mem = self.src, self.val, self.key
            b = Base(E, "rows", ASG, lambda a: z3.Exists([j], And(seg.has(j), z3.ForAll([x], Implies(mem(x), ap(a, x) == val(j, x))))))
            return Lst(E, [lib.gen_map(it, b, lambda a: lib.AsgTuple(self.cols, a))], "list")
        raise Unsupported(f"{k} of a data frame")
class RowDict:
    "a dictionary whose keys are the rows of a data frame"
    def __init__(self, it, seg, rec): self.seg, self.rec = seg, rec
    def vc_getitem(self, it, k):
        E = it.E; rec = self.rec; k = Lst(E, it.iter_segs(k)); a = E.fresh("row", ASG); x = z3.Const("gx", U)
        if len(k.segs) != 1 or not isinstance(k.segs[0], Gen) or k.segs[0].base.sort != U or E.valid(it.same_keys_f(it.keyseq(k), it.keys(rec.cols))) is not True: raise Unsupported("rows by other keys")
        s = k.segs[0]; v = E.merge_term(lambda: (E.require(s.has(s.c)), it.uterm(s.elem(s.c)))[1])
        E.lemma(z3.ForAll([x], Implies(s.has(x), ap(a, x) == z3.substitute(v, (s.c, x))), patterns=[ap(a, x)]))
        if E.decide(Not(self.seg.base.mem(a))): raise PyRaise("KeyError", "no such row")
        p = it.unpack(self.seg.elem(a), 2); row = Lst(E, it.iter_segs(p[0])); y = E.fresh("col", U)
        if E.valid(it.same_keys_f(it.keyseq(row), it.keyseq(k))) is not True or E.valid(Implies(s.has(y), E.merge_bool(lambda: (E.require(s.has(y)), it.uterm(it.elem_at(row, y)) == it.uterm(s.elem(y)))[1]))) is not True: raise Unsupported("dictionary by other keys")
        return p[1]
@register
class SampleCond(Contract):
    "one record per observation, in order, drawn from the table restricted to that observation"
    key = F + ".sample_conditional"; props = ("C20",); cases = ("numpy/default", "tree/default", "numpy/names", "numpy/states")
    def args(self, it, case):
        kind, form = case.split("/"); E = it.E; st = sym_store(it, kind, "st", None, True); f = factor_obj(it, kind, st, subset_list(it, "right", it.keys(dom_of(it, st))), "factor"); x, j = z3.Consts("cx cj", U)
        cb = names_base(it, "column"); val = E.fresh_fn("observed", U, U, U); cols = Dct(E, [DGen(cb, E.fresh("x", U), z3.BoolVal(True), lambda x: None)], ordered=True); ob = Base(E, "observations", U, E.fresh_fn("observation", U, B))
        E.require(z3.ForAll([x], Implies(is_right(it, f, x), cb.mem(x)))); E.require(z3.ForAll([x, j], Implies(And(ob.mem(j), cb.mem(x), is_var(it, f, x)), st_in(x, val(j, x)))))
        E.assumptions.add("the observations are records over the same variables, with the parents among them, of states of their domains; restricted to each of them the table is non-negative and not 0")
        obs = Lst(E, [lib.gen_map(it, ob, lambda j: Dct(E, [DGen(cb, E.fresh("x", U), z3.BoolVal(True), lambda x: S(val(j, x), "state"))], ordered=True))], "list", inp="observations")
        def frame(l):
            if not isinstance(l, Lst) or len(l.segs) != 1 or not isinstance(l.segs[0], Gen) or l.segs[0].base is not ob: raise Unsupported("data frame of other records")
            return Records(l.segs[0], cols, cb.mem, val)
        it.data_frame = frame; it.row_dict = lambda seg: RowDict(it, seg, Records(obs.segs[0], cols, cb.mem, val))
        p = dict(self=f, observations=obs)
        if form != "default": p["varnames"] = form == "names"
        return p, (f, ob, cb, val, form)
    def post(self, it, case, a, out):
        E = it.E; f, ob, cb, val, form = a[1]; n = f"sample_conditional ({case}): "; j, w = E.fresh("j", U), E.fresh("w", U); x = z3.Const("px", U)
        if out.kind == "raise": E.prove(Not(ob.mem(j)), n + "refused only without observations", note=str(out.val)); return
        E.prove(z3.Exists([x], ob.mem(x)), n + "no observations are refused"); r = out.val
        if not isinstance(r, Lst) or len(r.segs) != 1 or not isinstance(r.segs[0], Gen) or r.segs[0].base is not ob: raise Unsupported("samples in another form")
        s = r.segs[0]; E.prove(Implies(ob.mem(j), s.has(j)), n + "one for each observation, in order"); E.require(s.has(j)); d = s.elem(j)
        if not isinstance(d, Drawn): raise Unsupported("samples in another form")
        E.record(n + "in the form asked for", d.names is (form != "states")); X = it.valuation(); o = Dct(E, [DGen(cb, E.fresh("x", U), z3.BoolVal(True), lambda x: S(val(j, x), "state"))])
        E.prove(fval(it, d.f, X) == fval(it, f, obs_shift(it, o, X)), n + "drawn from the table restricted to the observation"); E.prove(is_var(it, d.f, w) == And(is_var(it, f, w), Not(cb.mem(w))), n + "a record of the variables that are not observed")
    def use(self, it, p): raise Unsupported("sample_conditional")

# ---- forward sampling: each variable given the values drawn for the earlier ones
from ..interp import assigned_names, loads
from .models import sym_model, mgraph, snap_model
from .elimination import env_has
from .ordering import poison
FS = "bcause.models.sampling:forward_sampling"
class Drawns:
    "records of one variable, drawn from its table; given: the data they are drawn for"
    def __init__(self, x, size, given): self.x, self.size, self.given = x, size, given
class Data:
    "a data frame with a column for each variable of a set"
    def __init__(self, cols, size, parts=None): self.cols, self.size, self.parts = cols, size, parts
    def vc_attr(self, it, k):
        if k == "to_dict":
            def f(orient=None):
                if orient != "records": raise Unsupported("data in another form")
                return RecordsOf(self)
            return lib.Callable_(f)
        raise Unsupported(f"{k} of the data")
    def vc_getitem(self, it, k):
        if not isinstance(k, Lst): raise Unsupported("item of the data")
        l = Lst(it.E, it.iter_segs(k)).snap(); x = z3.Const("cc", U)
        if it.E.decide(z3.Exists([x], And(it.member_f(l, x), Not(self.cols(x))))): raise PyRaise("KeyError", "no such columns")
        return Data(lambda x: it.member_f(l, x), self.size)
class RecordsOf:
    "the records of a data frame, as a list"
    def __init__(self, data): self.data = data
    def vc_getitem(self, it, k): raise PyRaise("TypeError", "records are in a list")
class TableOf:
    "the table of a variable of the model, through the contracts of sample and sample_conditional"
    def __init__(self, g, x): self.g, self.x = g, x
    def vc_attr(self, it, k):
        E = it.E; g, x = self.g, self.x; p = z3.Const("pa", U); arc = lambda p: And(g.isnode(it, p), g.edge(p, x))
        def sample(size=1, varnames=True):
            if varnames is not True: raise Unsupported("samples without names")
            if E.decide(z3.Exists([p], arc(p))): raise PyRaise("NotImplementedError", "conditional table")
            if E.decide(it.as_int(size) < 1): raise PyRaise("ValueError", "size")
            return Drawns(x, it.as_int(size), None)
        def conditional(observations, varnames=True):
            if varnames is not True or not isinstance(observations, RecordsOf): raise Unsupported("samples for other records")
            d = observations.data
            if E.decide(Not(z3.Exists([p], d.cols(p)))): raise PyRaise("ValueError", "no observations")
            if E.decide(z3.Exists([p], And(arc(p), Not(d.cols(p))))): raise PyRaise("NotImplementedError", "a parent is not observed")
            return Drawns(x, d.size, d)
        if k == "sample": return lib.Callable_(sample)
        if k == "sample_conditional": return lib.Callable_(conditional)
        raise Unsupported(f"{k} of a table")
def fs_frame(it):
    def f(*a, **kw):
        E = it.E
        if a and a[0] == "concat":
            l = Lst(E, it.iter_segs(a[1]))
            if a[2:] or kw != {"axis": 1} or not l.concrete or not all(isinstance(x, Data) for x in l.items) or len(l.items) != 2: raise Unsupported("data put together in another way")
            d, e = l.items; x = z3.Const("dx", U)
            if E.decide(z3.Exists([x], d.cols(x))): E.prove(d.size == e.size, "forward sampling: columns of one length")
            return Data(lambda x, c=d.cols, k=e.cols: Or(c(x), k(x)), e.size, (d, e))
        if kw or len(a) > 1: raise Unsupported("data frame")
        if not a: return Data(lambda x: z3.BoolVal(False), z3.IntVal(0))
        if not isinstance(a[0], Drawns): raise Unsupported("data frame of other records")
        r = a[0]; return Data(lambda x: x == r.x, r.size, r)
    return f
def fs_loop(it, s, env, itv):
    "before the round of a variable: the data has exactly the variables that precede it, in a topological order"
    from ..interp import ContinueSig, BreakSig, Env
    E = it.E; q = it.fs; g, size = q["g"], q["n"]; segs = it.iter_segs(itv); n = "forward sampling: "; a = E.fresh("w", U)
    if not isinstance(s, ast.For) or len(segs) != 1 or not isinstance(segs[0], Gen) or not hasattr(segs[0].base, "rank"): raise Unsupported("loop over variables in another order")
    seg = segs[0]; r = seg.base.rank; ds = [k for k in sorted(assigned_names(s.body) | loads(s)) if env_has(env, k) and isinstance(env.get(k), Data)]
    if len(ds) != 1: raise Unsupported("data of the earlier variables not identified")
    k = ds[0]; d0 = env.get(k); E.prove(Not(d0.cols(a)), n + "starts without data"); E.prove(seg.has(a) == g.isnode(it, a), n + "every variable is visited")
    if E.decide(E.fresh("round", B)):
        c = E.fresh("x", U); E.require(seg.has(c)); d = Data(lambda x: And(g.isnode(it, x), r(x) < r(c)), size)
        for nm in sorted(assigned_names(s.body) - {k}): env.set(nm, Poison(f"{nm} of an earlier round"))
        env.set(k, d); it.bind_target(s.target, seg.elem(c), env); lg = Log(E.births); E.logs.append(lg)
        try: it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: raise Unsupported("break")
        finally: E.logs.remove(lg)
        if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop changes something else")
        e = env.get(k)
        if e is d: E.record(n + "each round draws the variable", False); raise PathEnd()
        if not isinstance(e, Data) or not isinstance(e.parts, tuple) or d not in e.parts: raise Unsupported("data put together in another way")
        new = e.parts[1] if e.parts[0] is d else e.parts[0]
        if not isinstance(new.parts, Drawns): raise Unsupported("data put together in another way")
        E.prove(new.parts.x == c, n + "the variable of the round is drawn"); E.prove(new.size == size, n + "as many values as samples"); E.record(n + "given the values of the earlier variables", new.parts.given in (None, d)); raise PathEnd()
    poison(s, env); env.set(k, q.setdefault("final", Data(lambda x: g.isnode(it, x), size))); it.exec_block(s.orelse, env)
@register
class ForwardSampling(Contract):
    "a column for every variable, drawn from its table given the values drawn for its parents, as many records as asked for"
    key = FS; props = ("C20",); loops = {(FS, 0): fs_loop}; cases = ("bn", "scm")
    def args(self, it, case):
        E = it.E; m = sym_model(it, case); g = mgraph(m); b = names_base(it, "tables"); w = z3.Const("fw", U); E.require(z3.ForAll([w], b.mem(w) == g.isnode(it, w))); E.require(Not(lib.cyclic_f(it, g)))
        m.attrs["_factors"] = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda x: TableOf(g, x))]); n = E.fresh("n", I); E.require(n >= 1); it.fs = dict(g=g, n=n); it.topo = lambda g, r: None; it.data_frame = fs_frame(it)
        E.assumptions.add("pandas: a frame made from records has their values; frames side by side keep the rows"); return dict(model=m, n_samples=S(n)), (m, g, n)
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; m, g, size = a[1]; n = "forward sampling: "; x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        d = out.val
        if not isinstance(d, Data): raise Unsupported("samples in another form")
        E.prove(d.cols(x) == g.isnode(it, x), n + "every variable is sampled"); E.prove(Implies(g.isnode(it, x), d.size == size), n + "as many records as asked for")
    def use(self, it, p):
        m, size = p["model"], it.as_int(p["n_samples"])
        if not isinstance(m, Obj): raise Unsupported("forward sampling")
        if it.E.decide(size < 1): raise PyRaise("ValueError", "size")
        g = mgraph(m).copy(); return Data(lambda x: g.isnode(it, x), size)
class ModelSample(Contract):
    "samples of the model, as a data frame or as a list of records"
    props = ("C20",); cases = ("default", "pandas", "records", "records by name")
    def args(self, it, case):
        E = it.E; m = sym_model(it, self.kind); n = E.fresh("n", I); E.require(n >= 1); E.require(Not(lib.cyclic_f(it, mgraph(m)))); return dict(m=m, case=case), (m, n)
    def call(self, it, fn, a):
        m, n = a[1]; f = it.getattr(m, self.key.split(".")[-1]); form = a[0]["case"]
        return it.call(f, [S(n)] + ([form == "pandas"] if form in ("pandas", "records") else []), dict(as_pandas=False) if form == "records by name" else {})
    def post(self, it, case, a, out):
        E = it.E; m, size = a[1]; n = f"{self.key.split('.')[-1]} ({case}): "; x = E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not isinstance(r, (Data, RecordsOf)): raise Unsupported("samples in another form")
        E.record(n + "in the form that is asked for", isinstance(r, RecordsOf) == case.startswith("records")); d = r.data if isinstance(r, RecordsOf) else r
        E.prove(d.cols(x) == self.which(it, m, x), n + "of the variables that are asked for"); E.prove(d.size == size, n + "as many as asked for")
    def use(self, it, p): raise Unsupported("samples of a model")
    inline = True
@register
class SamplePG(ModelSample):
    key = "bcause.models.pgmodel:DiscreteDAGModel.sample"; kind = "bn"
    def which(self, it, m, x): return mgraph(m).isnode(it, x)
@register
class SampleEndo(ModelSample):
    key = "bcause.models.cmodel:StructuralCausalModel.sampleEndogenous"; kind = "scm"
    def which(self, it, m, x): return And(mgraph(m).isnode(it, x), it.member_f(m.attrs["_endogenous"], x))
