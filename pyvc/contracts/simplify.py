"""Simplification of a model for a query (C08)."""
from .base import *
from .models import *
from .graphs import reach_fn, connected_spec, subset_of, same_reach
MI = "bcause.models.transform.simplification:minimalize"

@register
class Minimalize(Contract):
    """keeps the targets; drops only variables without a target or evidence among themselves and their descendants, and variables not joined to a
    target once the arcs out of the evidence and the former variables are gone; the tables are the original ones restricted to the observed parents"""
    key = MI; props = ("C08", "C05"); cost = 2
    cases = ("bn/name", "bn/list", "bn/set", "bn/name/no evidence", "scm/name", "scm/list")
    def args(self, it, case):
        E = it.E; kind, form, *rest = case.split("/"); m = sym_model(it, kind); g = mgraph(m); a = dict(model=m)
        if form == "name": t = E.fresh("target", U); E.require(g.isnode(it, t)); a["target"] = S(t, "name"); T = lambda x: x == t
        else: l = subset_of(it, "target", g.nodes); T = lambda x, l=l: it.member_f(l, x); a["target"] = l if form == "list" else it.to_set(l)
        if rest: ev = None; hit = lambda x: z3.BoolVal(False)
        else:
            ev = a["evidence"] = observation(it, "ev"); x = z3.Const("evx", U); hit = lambda x: zb(it.has_key(ev, S(x, "name")))
            E.fact(z3.ForAll([x], Implies(hit(x), And(g.isnode(it, x), Not(T(x)))))); E.require(obs_in_domain(it, ev, lambda w: g.isnode(it, w)))
        if kind == "scm": pass
        return a, (T, ev, hit, snap_model(m))
    def post(self, it, case, a, out):
        E = it.E; p, (T, ev, hit, s0) = a; m = p["model"]; g = mgraph(m); n = f"minimalize ({case}): "
        if no_exc(it, out, n + "no exception"): return
        r = out.val; ok = isinstance(r, Obj) and r.cls is m.cls and r is not m; E.record(n + "returns another model of the same class", ok)
        if not ok: return
        E.record(n + "the model stays", same_snap(m, s0)); x, y = E.fresh("x", U), E.fresh("y", U); h = mgraph(r)
        E.prove(Implies(h.isnode(it, x), g.isnode(it, x)), n + "no new variables")
        E.prove(Implies(T(x), h.isnode(it, x)), n + "every target is kept")
        reach = reach_fn(it, g, lambda c: Or(T(c), hit(c))); same_reach(it, g)
        live = graph_where(it, g, reach, lambda u, v: And(g.edge(u, v), Not(hit(u)))); c = z3.Const("tc", U)
        join = z3.Exists([c], And(T(c), lib.joined_f(it, live, c, x)))
        E.prove(Implies(And(g.isnode(it, x), Not(h.isnode(it, x))), Or(Not(reach(x)), Not(join))), n + "only barren variables and those separated from the targets are dropped")
        E.prove(Implies(And(h.isnode(it, x), h.isnode(it, y)), h.edge(x, y) == And(g.edge(x, y), Not(hit(x)))), n + "the arcs of the model, without those out of the evidence")
        fam = m.fam
        def entry():
            E.require(h.isnode(it, x)); f = it.dget(mfactors(r), S(x, "name"), None)
            if f is None: E.record(n + "every variable has a table", False); return
            o = fam(x); w = E.fresh("w", U); X = it.valuation()
            gone = lambda u: And(is_right(it, o, u), hit(u))
            E.prove(is_var(it, f, w) == And(is_var(it, o, w), Not(gone(w))), n + "a table loses exactly the observed parents")
            E.prove(is_right(it, f, w) == And(is_right(it, o, w), Not(hit(w))), n + "the others stay on their side")
            Y = it.valuation()
            if ev is None: E.prove(fval(it, f, X) == fval(it, o, X), n + "the values of the original table"); return
            E.prove(fval(it, f, X) == fval(it, o, If(is_right(it, o, E.lam), obs_shift(it, ev, X), X)), n + "the values of the original table at the observed states of the parents")
        E.explore(entry)
        E.prove(it.same_keys_f(it.keys(mfactors(r)), h.nodes), n + "one table per variable")
    def use(self, it, p):
        from .elimination import Simplified
        E = it.E; m, t, ev = p["model"], p["target"], p["evidence"]; g = mgraph(m); w = E.fresh("w", U)
        t = Lst(E, it.iter_segs(t), "list") if isinstance(t, (St, Lst)) else Lst(E, [One(v) for v in plain(it, t)], "list"); hit = lambda x: z3.BoolVal(False) if ev is None else zb(it.has_key(ev, S(x, "name")))
        E.prove(Implies(it.member_f(t, w), And(g.isnode(it, w), Not(hit(w)))), "minimalize is called with variables of the model outside the evidence"); E.prove(Implies(hit(w), g.isnode(it, w)), "minimalize is called with evidence on variables of the model")
        return Simplified(m, t, ev.snap() if ev is not None else None)
