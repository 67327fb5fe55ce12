"""Inference from data (C21): filtering by evidence, the query on the data, the counts that are asked for.
Data frames are opaque collections of records with one value per column; counting them (pandas) is an assumed contract."""
import ast
from ..interp import assigned_names, ContinueSig, BreakSig, Env, loads
from .base import *
from .trees import *
from .models import *
from .elimination import names_arg as some_names, has_f, same_obs, env_has
DU = "bcause.util.datautils:"
LI = "bcause.inference.probabilistic.datainference:LaplaceInference"
class Frame:
    "a data frame: the records of a source that are kept, some of its columns"
    def __init__(self, cell, keep, cols): self.cell, self.keep, self.cols = cell, keep, cols
    def vc_getitem(self, it, k):
        if isinstance(k, Mask):
            if k.frame.cell is not self.cell: raise Unsupported("records selected by another data frame")
            r = it.E.fresh("rec", U)
            if k.frame.keep is not self.keep and it.E.valid(k.frame.keep(r) == self.keep(r)) is not True: raise Unsupported("records selected by other records")
            a, b = self.keep, k.pred; return Frame(self.cell, lambda r: And(a(r), b(r)), self.cols)
        if isinstance(k, (str, S)):
            x = it.uterm(k)
            if it.E.decide(Not(self.cols(x))): raise PyRaise("KeyError", "no such column")
            return Column(self, x)
        if isinstance(k, (Lst,)):
            l = Lst(it.E, it.iter_segs(k)).snap(); x = z3.Const("cc", U); old = self.cols
            if it.E.decide(z3.Exists([x], And(it.member_f(l, x), Not(old(x))))): raise PyRaise("KeyError", "no such columns")
            return Frame(self.cell, self.keep, lambda x: it.member_f(l, x))
        raise Unsupported("item of a data frame")
    def vc_attr(self, it, k):
        if k == "loc": return Loc(self)
        if k == "copy": return lib.Callable_(lambda: Frame(self.cell, self.keep, self.cols))
        raise Unsupported(f"{k} of a data frame")
class Loc:
    def __init__(self, frame): self.frame = frame
    def vc_getitem(self, it, k):
        if not isinstance(k, Mask): raise Unsupported("loc")
        return self.frame.vc_getitem(it, k)
class Column:
    def __init__(self, frame, x): self.frame, self.x = frame, x
    def vc_eq(self, it, v):
        if not isinstance(v, (S, str)): raise Unsupported("column compared with another kind of value")
        t, f, x = it.uterm(v), self.frame, self.x; return Mask(f, lambda r: f.cell(r, x) == t)
class Mask:
    def __init__(self, frame, pred): self.frame, self.pred = frame, pred
def some_frame(it):
    E = it.E; cell, keep, col = E.fresh_fn("cell", U, U, U), E.fresh_fn("record", U, B), E.fresh_fn("column", U, B); return Frame(lambda r, x: cell(r, x), lambda r: keep(r), lambda x: col(x))
def compatible(it, obs, cell, P=None):
    "formula about a record: it has the observed states (of the variables in P)"
    def f(r):
        x = z3.Const("ox", U)
        has = zb(it.has_key(obs, S(x, "name"))); v = it.E.merge_bool(lambda: (it.E.require(has), it.uterm(it.dget(obs, S(x, "name"))) == cell(r, x))[1])
        return z3.ForAll([x], Implies(And(has, P(x) if P is not None else z3.BoolVal(True)), v))
    return f
def filter_loop(it, s, env, itv):
    "after the variables visited so far: the records that have their observed states"
    E = it.E; q = it.ff; src, obs = q; segs = it.iter_segs(itv)
    if not isinstance(s, ast.For) or len(segs) != 1 or not isinstance(segs[0], Gen) or segs[0].base.sort != U: raise Unsupported("loop over the evidence")
    seg = segs[0]; ass = assigned_names(s.body); names = [k for k in sorted(ass | loads(s)) if env_has(env, k) and isinstance(env.get(k), Frame)]
    if len(names) != 1: raise Unsupported("loop over the evidence: data not identified")
    k = names[0]; d0 = env.get(k)
    if d0 is not src: raise Unsupported("loop over other data")
    P = E.fresh_fn("visited", U, B); x = z3.Const("vx", U); r = E.fresh("rec", U); E.fact(z3.ForAll([x], Implies(P(x), seg.has(x)), patterns=[P(x)]))
    for nm in sorted(ass - {k}): env.set(nm, Poison(f"{nm} of an earlier round"))
    sofar = lambda Q: (lambda rec: And(src.keep(rec), compatible(it, obs, src.cell, Q)(rec)))
    env.set(k, Frame(src.cell, sofar(P), src.cols)); n = "filter_data: "
    if E.decide(E.fresh("round", B)):
        c = E.fresh("it", U); E.require(seg.has(c)); E.require(Not(P(c))); it.bind_target(s.target, seg.elem(c), env); lg = Log(E.births); E.logs.append(lg)
        try: it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: raise Unsupported("break")
        finally: E.logs.remove(lg)
        if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop changes something else")
        d = env.get(k)
        if not isinstance(d, Frame) or d.cell is not src.cell: raise Unsupported("loop over the evidence: other data")
        E.prove(d.keep(r) == sofar(lambda y: Or(P(y), y == c))(r), n + "each round keeps the records with the observed state"); raise PathEnd()
    E.fact(z3.ForAll([x], Implies(seg.has(x), P(x))))
    for nm in sorted((ass | {t.id for t in ast.walk(s.target) if isinstance(t, ast.Name)}) - {k}): env.set(nm, Poison(f"{nm} after a loop"))
    it.exec_block(s.orelse, env)
@register
class FilterData(Contract):
    "exactly the records that have the observed state in every observed column"
    key = DU + "filter_data"; props = ("C21",); loops = {(DU + "filter_data", 0): filter_loop}
    def args(self, it, case):
        d = some_frame(it); obs = observation(it, "obs", "observation"); x = z3.Const("ax", U); it.E.require(z3.ForAll([x], Implies(has_f(it, obs)(x), d.cols(x)))); it.ff = (d, obs.snap()); return dict(data=d, obs=obs), (d, obs.snap())
    def call(self, it, fn, a): return it.run_func(fn, [], dict(a[0]))
    def post(self, it, case, a, out):
        E = it.E; d, obs = a[1]; n = "filter_data: "; r, x = E.fresh("rec", U), E.fresh("x", U)
        if no_exc(it, out, n + "no exception"): return
        f = out.val; E.record(n + "returns data of the same source", isinstance(f, Frame) and f.cell is d.cell)
        if not isinstance(f, Frame) or f.cell is not d.cell: return
        E.prove(f.keep(r) == And(d.keep(r), compatible(it, obs, d.cell)(r)), n + "exactly the records that have the observed states"); E.prove(f.cols(x) == d.cols(x), n + "the columns stay")
    def use(self, it, p):
        d, obs = p["data"], p["obs"]
        if not isinstance(d, Frame) or not isinstance(obs, Dct): raise Unsupported("filter_data")
        obs = obs.snap(); x = z3.Const("ux", U)
        if it.E.decide(z3.Exists([x], And(has_f(it, obs)(x), Not(d.cols(x))))): raise PyRaise("KeyError", "no such column")
        return Frame(d.cell, lambda r: And(d.keep(r), compatible(it, obs, d.cell)(r)), d.cols)
class Counts:
    def __init__(self, domains, data, normalize): self.domains, self.data, self.normalize = domains, data, normalize
@register
class ToCounts(Contract):
    key = DU + "to_counts"; trusted = True; why_trusted = "number or fraction of the records with each joint assignment (pandas); compared with counting by the bounded part (C21)"
    def use(self, it, p): return Counts(p["domains"].snap(), p["data"], p["normalize"])

def li_object(it):
    E = it.E; o = Obj(E, it.get_func(LI), inp="inference object"); o.inp = None; d = some_frame(it); dom = domain_dict(it, "domains", inp="domains"); x = z3.Const("lx", U)
    E.require(z3.ForAll([x], Implies(zb(it.has_key(dom, S(x, "name"))), d.cols(x)))); old = Lst(E, [gen_of(E, Base(E, "old_target", U, E.fresh_fn("old_target", U, B), kind="name"))], "list")
    o.attrs.update(_model=d, _domains=dom, _preprocess_flag=S(E.fresh("preprocess", B)), _evidence=observation(it, "old_ev", None), _target=old, _compiled=S(E.fresh("compiled", B)), _inference_model=some_frame(it)); return o, d, dom
def known_names(it, dom, f): x = z3.Const("kx", U); it.E.require(z3.ForAll([x], Implies(f(x), zb(it.has_key(dom, S(x, "name"))))))
@register
class LaplaceCompile(Contract):
    "repeated targets and targets in the evidence are refused; otherwise the query is for exactly these targets and this evidence, on all records"
    key = LI + ".compile"; props = ("C21",); cases = ("name", "list", "set", "two", "list/no evidence", "two/no evidence")
    def args(self, it, case):
        form, *rest = case.split("/"); o, d, dom = li_object(it); t, T, dup = some_names(it, form, "target"); known_names(it, dom, T); ev = None if rest else observation(it, "ev", "evidence argument"); a = dict(self=o, target=t)
        if ev is not None: a["evidence"] = ev; known_names(it, dom, has_f(it, ev))
        return a, (d, T, dup, ev)
    def post(self, it, case, a, out):
        E = it.E; d, T, dup, ev = a[1]; n = f"compile ({case}): "; hit = has_f(it, ev); x = z3.Const("cx", U); w, r = E.fresh("w", U), E.fresh("rec", U); o = a[0]["self"]
        if out.kind == "raise": E.prove(Or(z3.Exists([x], And(T(x), hit(x))), *([dup] if dup is not None else [])), n + "refused only if targets repeat or are in the evidence", note=str(out.val)); return
        E.prove(Not(And(T(w), hit(w))), n + "targets in the evidence are refused")
        if dup is not None: E.prove(Not(dup), n + "repeated targets are refused")
        t, e, s = (o.attrs.get(k) for k in ("_target", "_evidence", "_inference_model")); E.record(n + "ready to run", out.val is o and o.attrs.get("_compiled") is True)
        ok = isinstance(t, Lst) and isinstance(e, Dct) and isinstance(s, Frame) and s.cell is d.cell; E.record(n + "targets, evidence and data are kept", ok)
        if not ok: return
        E.prove(it.member_f(t, w) == T(w), n + "the targets are kept"); E.prove(same_obs(it, e, ev), n + "the evidence is kept"); E.prove(s.keep(r) == d.keep(r), n + "all records are used"); E.prove(Implies(Or(T(w), hit(w)), s.cols(w)), n + "the columns of targets and evidence are kept")
    def use(self, it, p): raise Unsupported("inference from data")
@register
class LaplaceRun(Contract):
    "the frequencies of the joint assignments of the targets among the records compatible with the evidence"
    key = LI + ".run"; props = ("C21",)
    def args(self, it, case):
        E = it.E; o, d, dom = li_object(it); t, T, _ = some_names(it, "list", "target"); t.inp = None; ev = observation(it, "ev", None); known_names(it, dom, T); known_names(it, dom, has_f(it, ev)); x = z3.Const("rx", U); f = E.fresh_fn("column_kept", U, B); s = Frame(d.cell, d.keep, lambda x: And(f(x), d.cols(x)))
        E.require(z3.ForAll([x], Implies(Or(T(x), has_f(it, ev)(x)), s.cols(x)))); o.attrs.update(_target=t, _evidence=ev, _inference_model=s, _compiled=True); return dict(self=o), (s, T, ev.snap(), dom.snap())
    def post(self, it, case, a, out):
        E = it.E; s, T, ev, dom = a[1]; n = "run: "; w, r = E.fresh("w", U), E.fresh("rec", U)
        if no_exc(it, out, n + "no exception"): return
        c = out.val
        if not isinstance(c, Counts): raise Unsupported("answer made in another way")
        E.record(n + "the fractions, not the numbers", c.normalize is True); ok = isinstance(c.data, Frame) and c.data.cell is s.cell; E.record(n + "of the data", ok)
        if ok: E.prove(c.data.keep(r) == And(s.keep(r), compatible(it, ev, s.cell)(r)), n + "among exactly the records compatible with the evidence")
        h = zb(it.has_key(c.domains, S(w, "name"))); E.prove(h == T(w), n + "over exactly the targets")
        E.prove(Implies(h, E.merge_bool(lambda: (E.require(h), zb(it.eq(it.dget(c.domains, S(w, "name")), it.dget(dom, S(w, "name")))))[1])), n + "with the states of their domains")
    def use(self, it, p): raise Unsupported("inference from data")
