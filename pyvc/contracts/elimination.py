"""Variable elimination (C07): the loop over an elimination order keeps the marginal of the product of the tables."""
import ast
from ..interp import assigned_names, ContinueSig, BreakSig, Env
from .base import *
from .models import *
from .causal import plain
from .factors import *
VE = "bcause.inference.probabilistic.elimination:VariableElimination"
DIV = ast.Div()
class Record:
    "object known by some attributes"
    def __init__(self, what, **attrs): self.what, self.attrs = what, attrs
    def vc_attr(self, it, k):
        if k not in self.attrs: raise Unsupported(f"{k} of {self.what}")
        return self.attrs[k]

# ---- products of lists of tables
class Products:
    """products of the tables of a list.  A product is known by which tables take part; its value is a table of its own, its variables
    and left variables are those of the parts (as the contract of the product of two tables says)"""
    def __init__(self, it, fam): self.it, self.fam, self.known = it, fam, []
    def pred(self, s):
        it = self.it; E = it.E; c = E.fresh("pf", U)
        outs = E.explore(lambda: (E.require(s.has(c)), getattr(s.elem(c), "ident", None))[1])
        if s.base.sort != U or any(o.kind == "raise" or o.val is None or E.valid(Implies(o.cond, o.val == self.fam(c).ident)) is not True for o in outs): raise Unsupported("product of other tables")
        return lambda x: z3.simplify(s.has(x))
    def of(self, pred, value=None):
        "the product of the tables with pred"
        it = self.it; E = it.E; x, w = z3.Consts("px pw", U)
        for p, o in self.known:
            if E.valid(z3.ForAll([x], p(x) == pred(x))) is True: return o
        ind, rig = self.fam.indom, self.fam.isright
        var, left, hv, hl = (E.fresh_fn(n, U, so) for n, so in (("in_product", B), ("left_of_product", B), ("part_with", U), ("part_with_left", U)))
        E.lemma(z3.ForAll([x, w], Implies(And(pred(x), ind(x, w)), var(w)), patterns=[z3.MultiPattern(var(w), ind(x, w)) if z3.is_app(ind(x, w)) and ind(x, w).decl().kind() == z3.Z3_OP_UNINTERPRETED else var(w)]))
        E.lemma(z3.ForAll([w], Implies(var(w), And(pred(hv(w)), ind(hv(w), w))), patterns=[var(w)]))
        E.lemma(z3.ForAll([x, w], Implies(And(pred(x), ind(x, w), Not(rig(x, w))), left(w)), patterns=[z3.MultiPattern(left(w), ind(x, w))]))
        E.lemma(z3.ForAll([w], Implies(left(w), And(pred(hl(w)), ind(hl(w), w), Not(rig(hl(w), w)), var(w))), patterns=[left(w)]))
        b = Base(E, "vars_of_product", U, lambda w: var(w), kind="name"); sym = ("prod", E.birth()); dom = Dct(E, [DGen(b, E.fresh("x", U), z3.BoolVal(True), lambda w: it.states(w))], ordered=True)
        val = value or (lambda X: it.app(sym, [], X, lambda w: var(w)))
        o = make_factor(it, "numpy", dom, val, Lst(E, it.keys(filtered(it, dom, lambda w: Not(left(w)))).segs, "list")); o.prod = (var, left)
        self.known.append((pred, o)); return o
    def reduce(self, fn, s, v):
        it = self.it; E = it.E; pred = self.pred(s); a, b = sym_factor(it, "numpy", "a", inp=False), sym_factor(it, "numpy", "b", inp=False)
        r = it.call(fn, [a, b], {}); X = it.valuation(); w = E.fresh("w", U)
        if not isinstance(r, Obj) or r.cls.name != "MultinomialFactor" or E.valid(fval(it, r, X) == fval(it, a, X) * fval(it, b, X)) is not True or E.valid(And(is_var(it, r, w) == Or(is_var(it, a, w), is_var(it, b, w)), is_left(it, r, w) == Or(is_left(it, a, w), is_left(it, b, w)))) is not True: raise Unsupported("reduce with an operation that is not the product")
        return self.of(pred)

def elimination_loop(it, s, env, itv):
    """the tables in the list hold each of the remaining and of the other variables on the left in one of them, and no variable that is removed;
    the product of the list, with the remaining variables summed out, stays the same: the tables with the variable are replaced by their
    product with it summed out (which is one and may be left out if no variable of it is on the left)"""
    E = it.E; q = it.ve; fam, N = q["fam"], q["nodes"]; n = "elimination: "; w, x = z3.Consts("lw lx", U); a, b = E.fresh("w", U), E.fresh("x", U)
    segs = it.iter_segs(itv)
    if not (len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].ident and segs[0].base.sort == U): raise Unsupported("loop over other things than variables")
    seg = segs[0]
    names = assigned_names(s.body) | {k.id for k in ast.walk(s.target) if isinstance(k, ast.Name)}
    def tables(v):
        v = Lst(E, it.iter_segs(v)) if isinstance(v, Lst) else None
        return v is not None and len(v.segs) == 1 and isinstance(v.segs[0], Gen) and v.segs[0].base is q["base"]
    have = [k for k in sorted(names) if env_has(env, k) and tables(env.get(k))]
    if len(have) != 1: raise Unsupported("elimination loop: the list of tables is not identified")
    name = have[0]; pred0 = q["prod"].pred(it.iter_segs(env.get(name))[0])
    E.prove(pred0(b) == N(b), n + "starts with all the tables of the model")
    E.prove(seg.has(a) == And(N(a), Not(q["T"](a)), Not(q["ev"](a))), n + "all the variables but targets and evidence are removed, each once")
    # an arbitrary round
    P, M, hold = E.fresh_fn("removed", U, B), E.fresh_fn("in_list", U, B), E.fresh_fn("held_by", U, U)
    E.fact(z3.ForAll([w], Implies(P(w), seg.has(w)), patterns=[P(w)]))
    def state(M, P, hold):
        E.fact(z3.ForAll([x, w], Implies(And(M(x), fam.indom(x, w)), And(N(w), Not(P(w)))), patterns=[fam.indom(x, w)]))
        E.fact(z3.ForAll([w], Implies(And(N(w), Not(P(w))), And(M(hold(w)), fam.indom(hold(w), w), Not(fam.isright(hold(w), w)))), patterns=[hold(w)]))
    for k in sorted(names): env.set(k, Poison(f"{k} of an earlier round"))
    if E.decide(E.fresh("round", B)):
        state(M, P, hold); base = Base(E, "tables_now", U, lambda y: M(y)); c = E.fresh("removed_now", U); E.require(seg.has(c)); E.require(Not(P(c)))
        E.lemma(Implies(N(c), hold(c) == hold(c))); E.fact(And(M(hold(c)), fam.indom(hold(c), c), Not(fam.isright(hold(c), c))))
        env.set(name, Lst(E, [Gen(base, E.fresh("x", U), z3.BoolVal(True), lambda y: fam(y))], "list"))
        it.bind_target(s.target, seg.elem(c), env); lg = Log(E.births); E.logs.append(lg)
        try: it.exec_block(s.body, env)
        except ContinueSig: pass
        except BreakSig: raise Unsupported("break in the elimination loop")
        finally: E.logs.remove(lg)
        for o, e in lg.effects:
            if not isinstance(o, Env) or e[1] not in names: raise Unsupported("elimination loop that changes something else")
        nl = env.get(name)
        if not isinstance(nl, Lst): raise Unsupported("elimination loop: list of tables")
        gens = [g for g in nl.segs if isinstance(g, Gen)]; new = [g.v for g in nl.segs if isinstance(g, One)]
        if len(gens) != 1 or gens[0].base is not base or len(new) > 1 or not all(isinstance(o, Obj) and o.cls.name == "MultinomialFactor" for o in new): raise Unsupported("elimination loop: list of tables")
        stay = q["prod"].pred(gens[0]); rel = lambda y: z3.simplify(And(M(y), fam.indom(y, c))); pr = q["prod"].of(rel); var, left = pr.prod; X = it.valuation()
        E.prove(stay(b) == And(M(b), Not(fam.indom(b, c))), n + "tables without the variable stay, the others are replaced")
        inleft = lambda y: z3.BoolVal(False)
        if new:
            f = new[0]; inleft = lambda y: is_left(it, f, y)
            E.prove(fval(it, f, X) == it.agg_vars("sum", lambda y: y == c, lambda Y: fval(it, pr, Y), X), n + "the new table is the product of the replaced ones, the variable summed out")
            E.prove(is_var(it, f, a) == And(var(a), a != c), n + "variables of the new table"); E.prove(is_left(it, f, a) == And(left(a), a != c), n + "left variables of the new table")
            prove_factor(it, f, n)
        else: E.prove(Implies(left(a), a == c), n + "the new table is left out only if none of its variables is on the left")
        h = hold(a); E.fact(Implies(And(N(a), Not(P(a))), And(M(h), fam.indom(h, a), Not(fam.isright(h, a)))))      # instances
        E.lemma(Implies(And(rel(h), fam.indom(h, a), Not(fam.isright(h, a))), left(a)))
        E.prove(Implies(And(N(a), Not(P(a)), a != c), Or(And(stay(h), fam.indom(h, a), Not(fam.isright(h, a))), inleft(a))), n + "every other variable is on the left of a table")
        E.assumptions.add("sum of a product over one variable = product of the parts without it times the sum of the product of the parts with it; products of conditional tables of an acyclic graph sum to one over their left variables")
        raise PathEnd()
    M2, hold2 = E.fresh_fn("in_last_list", U, B), E.fresh_fn("held_at_end_by", U, U)
    state(M2, lambda y: seg.has(y), hold2); base = Base(E, "tables_at_end", U, lambda y: M2(y)); q["hold"] = hold2
    var, left = q["prod"].of(lambda y: M2(y), lambda X: q["marginal"](X)).prod; h = hold2(a)
    E.fact(Implies(And(N(a), Not(seg.has(a))), And(M2(h), fam.indom(h, a), Not(fam.isright(h, a)))))
    if E.valid(Implies(And(N(a), Not(seg.has(a))), And(var(a), left(a)))) is not True: raise Unsupported("variables of the product of the last tables")
    E.lemma(z3.ForAll([w], Implies(And(N(w), Not(seg.has(w))), And(var(w), left(w))), patterns=[N(w), var(w), left(w)]))
    for k in sorted(names): env.set(k, Poison(f"{k} after a loop"))
    env.set(name, Lst(E, [Gen(base, E.fresh("x", U), z3.BoolVal(True), lambda y: fam(y))], "list")); it.exec_block(s.orelse, env)
def env_has(env, k):
    try: env.get(k); return True
    except (PyRaise, Unsupported, KeyError): return False

@register
class VERun(Contract):
    """the tables of the model multiplied, all variables but targets and evidence summed out, at the evidence, and normalised over the targets:
    a table over exactly the targets, all of them on the left"""
    key = VE + ".run"; props = ("C07", "C09"); cases = ("targets in a list", "not compiled"); cost = 3; loops = {(VE + ".run", 0): elimination_loop}
    def args(self, it, case):
        E = it.E; o = Obj(E, it.get_func(VE)); ind, rig = E.fresh_fn("indom", U, U, B), E.fresh_fn("isright", U, U, B); v, w = z3.Consts("gv gw", U)
        E.lemma(z3.ForAll([v, w], Implies(rig(v, w), ind(v, w)), patterns=[rig(v, w)]))
        fam = Fam(it, "tables", lambda v, w: ind(v, w), lambda v, w: rig(v, w)); g = sym_graph(it, "dag", acyclic=True); base = g.nodes.segs[0].base; N = base.mem
        E.fact(z3.ForAll([v, w], Implies(And(N(v), ind(v, w)), N(w)), patterns=[ind(v, w)])); E.fact(z3.ForAll([v], Implies(N(v), And(ind(v, v), Not(rig(v, v)))), patterns=[N(v)]))
        tl = subset_list(it, "targets", g.nodes, inp="targets"); T = lambda w: it.member_f(tl, w); E.require(it.nonempty_f(tl.segs))
        obs = observation(it, "ev", "evidence"); x = z3.Const("evx", U); ev = lambda x: zb(it.has_key(obs, S(x, "name"))); E.fact(z3.ForAll([x], Implies(ev(x), Not(T(x))))); E.require(obs_in_domain(it, obs, lambda w: N(w)))
        tables = Dct(E, [DGen(base, E.fresh("x", U), z3.BoolVal(True), lambda v: fam(v))], inp="tables of the model")
        sizes = Dct(E, [DGen(base, E.fresh("x", U), z3.BoolVal(True), lambda v: S(st_size(v)))], inp="sizes")
        keep = lambda w: Or(T(w), And(N(w), ev(w))); sym = ("marginal", E.birth())
        it.ve = dict(fam=fam, nodes=N, base=base, T=T, ev=ev, prod=Products(it, fam), marginal=lambda X: it.app(sym, [], X, keep)); it.reduce_objs = it.ve["prod"].reduce
        calls = []
        def heuristic(dag, to_remove, varsizes=None):
            calls.append((dag, to_remove, varsizes)); before = to_remove.snap(); 
            if dag is not g or not (varsizes is None or varsizes is sizes): raise Unsupported("an order for another graph or other sizes")
            a = E.fresh("w", U); E.prove(Implies(it.member_f(before, a), N(a)), "elimination: an order of variables of the graph is asked for"); to_remove.set([])
            b = Base(E, "ordering", U, lambda w: z3.simplify(it.member_f(before, w)), kind="name"); return Lst(E, [gen_of(E, b)], "list")
        o.attrs.update(_compiled=case != "not compiled", _target=tl, _evidence=obs, _inference_model=Record("the simplified model", factors=tables, graph=g, varsizes=sizes), _heuristic=lib.Callable_(heuristic))
        return dict(self=o), (T, obs, N)
    def call(self, it, fn, a): return it.run_func(fn, [a[0]["self"]], {})
    def post(self, it, case, a, out):
        E = it.E; T, obs, N = a[1]; n = f"run ({case}): "
        if case == "not compiled": E.record(n + "refused", out.kind == "raise" and out.val.cls == "ValueError"); return
        if no_exc(it, out, n + "no exception"): return
        r = out.val
        if not is_factor(it, r, "numpy", n): return
        X = it.valuation(); w = E.fresh("w", U); J = lambda Y: it.ve["marginal"](obs_shift(it, obs, Y))
        E.prove(fval(it, r, X) == lib.num_op(it, DIV, J(X), it.agg_vars("sum", T, J, X)), n + "the marginal at the evidence, normalised over the targets")
        E.prove(is_var(it, r, w) == T(w), n + "a table over exactly the targets"); E.prove(Not(is_right(it, r, w)), n + "all of them on the left"); prove_factor(it, r, n)
    def use(self, it, p):
        E = it.E; o = p["self"]
        if o.attrs.get("_compiled") is not True: raise PyRaise("ValueError", "not compiled")
        q = Posterior(it, o); it.runs.append(q); dom = Dct(E, [DGen(*(lambda s: (s.base, s.c, s.g))(s), lambda w: it.states(w)) if isinstance(s, Gen) else DOne(s.v, it.states(it.uterm(s.v))) for s in q.T.segs], ordered=True)
        return make_factor(it, "numpy", dom, q.val, Lst(E, [], "list"))

# ---- the query around it
PI = "bcause.inference.probabilistic.probabilistic:ProbabilisticInference"
class Simplified:
    "a model simplified for a query (contract of minimalize)"
    def __init__(self, model, target, evidence): self.model, self.target, self.evidence = model, target, evidence
def ve_object(it, m):
    o = Obj(it.E, it.get_func(VE), inp="inference object"); o.inp = None
    # whatever an earlier query left
    old = Lst(it.E, [gen_of(it.E, Base(it.E, "old_target", U, it.E.fresh_fn("old_target", U, B), kind="name"))], "list"); ev = observation(it, "old_ev", None)
    o.attrs.update(_model=m, _evidence=ev, _target=old, _compiled=S(it.E.fresh("compiled", B)), _inference_model=Simplified(m, old, ev.snap())); return o
def names_arg(it, form, nm):
    "arbitrary names, in a given form, with their membership"
    E = it.E
    if form == "name": t = E.fresh(nm, U); return S(t, "name"), (lambda w: w == t), None
    if form == "two": a, b = E.fresh(nm + "1", U), E.fresh(nm + "2", U); return Lst(E, [One(S(a, "name")), One(S(b, "name"))], "list", inp=nm + " argument"), (lambda w: Or(w == a, w == b)), a == b
    b = Base(E, nm, U, E.fresh_fn(nm, U, B), kind="name"); E.require(it.nonempty_f([gen_of(E, b)])); l = Lst(E, [gen_of(E, b)], "list", inp=nm + " argument")
    return (it.to_set(l) if form == "set" else l), (lambda w: b.mem(w)), None
def has_f(it, ev): return (lambda w: z3.BoolVal(False)) if ev is None else (lambda w: zb(it.has_key(ev, S(w, "name"))))
def same_obs(it, d, ev):
    "the dictionary is the evidence"
    if not isinstance(d, Dct): return z3.BoolVal(False)
    if ev is None: return it.keys(d).concrete and not it.keys(d).segs and z3.BoolVal(True) or Not(it.nonempty_f(d.segs))
    return zb(it.eq(d, ev))

@register
class Compile(Contract):
    """repeated targets, targets in the evidence and unknown variables are refused; otherwise the query is for exactly these targets and this evidence,
    on the model simplified for them"""
    key = PI + ".compile"; props = ("C07",); cost = 2
    cases = ("name", "list", "set", "two", "list/no evidence", "two/no evidence")
    def args(self, it, case):
        E = it.E; form, *rest = case.split("/"); m = sym_model(it, "bn"); g = mgraph(m); o = ve_object(it, m); t, T, dup = names_arg(it, form, "target")
        ev = None if rest else observation(it, "ev", "evidence argument"); a = dict(self=o, target=t)
        if ev is not None: a["evidence"] = ev; E.require(obs_in_domain(it, ev, lambda w: g.isnode(it, w)))
        return a, (m, T, dup, ev)
    def post(self, it, case, a, out):
        E = it.E; m, T, dup, ev = a[1]; g = mgraph(m); n = f"compile ({case}): "; hit = has_f(it, ev); x = z3.Const("cx", U); w = E.fresh("w", U); o = a[0]["self"]
        over, unknown = z3.Exists([x], And(T(x), hit(x))), z3.Exists([x], And(Or(T(x), hit(x)), Not(g.isnode(it, x))))
        if out.kind == "raise":
            E.prove(Or(over, unknown, *([dup] if dup is not None else [])), n + "refused only if targets repeat, are in the evidence or a variable is unknown", note=str(out.val)); return
        E.prove(Not(And(T(w), hit(w))), n + "targets in the evidence are refused"); E.prove(Implies(Or(T(w), hit(w)), g.isnode(it, w)), n + "unknown variables are refused")
        if dup is not None: E.prove(Not(dup), n + "repeated targets are refused")
        t, d, s = (o.attrs.get(k) for k in ("_target", "_evidence", "_inference_model"))
        E.record(n + "ready to run", out.val is o and o.attrs.get("_compiled") is True)
        ok = isinstance(t, Lst) and isinstance(d, Dct) and isinstance(s, Simplified); E.record(n + "targets, evidence and simplified model are kept", ok)
        if not ok: return
        E.prove(it.member_f(t, w) == T(w), n + "the targets are kept"); E.prove(same_obs(it, d, ev), n + "the evidence is kept")
        E.record(n + "the model itself is simplified", s.model is m); E.prove(it.member_f(s.target, w) == T(w), n + "simplified for the targets"); E.prove(same_obs(it, s.evidence, ev), n + "simplified for the evidence")
    def use(self, it, p):
        E = it.E; o = p["self"]; m = o.attrs["_model"]; g = mgraph(m); T = plain(it, p["target"]) if not isinstance(p["target"], (St, Lst)) else Lst(E, it.iter_segs(p["target"]), "list"); ev = p["evidence"]
        if isinstance(T, list): T = Lst(E, [One(t) for t in T], "list")
        Tf = lambda w: it.member_f(T, w); hit = has_f(it, ev); x = z3.Const("cx", U)
        if T.concrete and len(T.items) > 1 and E.decide(disj([zb(it.eq(a, b)) for i, a in enumerate(T.items) for b in T.items[:i]])): raise PyRaise("ValueError", "repeated variables in target")
        if E.decide(z3.Exists([x], And(Tf(x), hit(x)))): raise PyRaise("ValueError", "target and evidence are not disjoint")
        if E.decide(z3.Exists([x], And(Or(Tf(x), hit(x)), Not(g.isnode(it, x))))): raise PyRaise("NodeNotFound", "unknown variables")
        o.attrs.update(_target=T, _evidence=Dct(E) if ev is None else ev, _compiled=True, _inference_model=Simplified(m, T, ev)); return o
class Posterior:
    "posterior of a model for targets and evidence (its value: contract of run); it depends on the targets alone"
    def __init__(self, it, o):
        self.T, self.ev, self.model = o.attrs["_target"], o.attrs["_evidence"], o.attrs["_inference_model"]; T = lambda w: it.member_f(self.T, w); sym = ("posterior", it.E.birth())
        self.val = lambda X: it.app(sym, [], X, T)

@register
class PQuery(Contract):
    """without conditioning, the posterior of the targets; otherwise the posterior of targets and conditioning variables divided by its sum over
    the targets: a table over exactly these variables, the conditioning ones on the right"""
    key = PI + ".query"; props = ("C07",); cost = 2
    cases = ("name", "list", "list/no evidence", "name|name", "list|name", "list|list", "two|name", "list|list/no evidence", "name|set")
    def args(self, it, case):
        E = it.E; form, *rest = case.split("/"); tf, *cf = form.split("|"); m = sym_model(it, "bn"); g = mgraph(m); o = ve_object(it, m); t, T, dup = names_arg(it, tf, "target"); a = dict(self=o, target=t); C = None
        if dup is not None: E.require(Not(dup))
        if cf: a["conditioning"], C, _ = names_arg(it, cf[0], "conditioning")
        ev = None if rest else observation(it, "ev", "evidence argument")
        if ev is not None: a["evidence"] = ev; E.require(obs_in_domain(it, ev, lambda w: g.isnode(it, w)))
        it.runs = []
        return a, (m, T, C, ev)
    def post(self, it, case, a, out):
        E = it.E; m, T, C, ev = a[1]; g = mgraph(m); n = f"query ({case}): "; hit = has_f(it, ev); x = z3.Const("cx", U); w = E.fresh("w", U); both = lambda w: Or(T(w), C(w)) if C else T(w)
        over, unknown = z3.Exists([x], And(both(x), hit(x))), z3.Exists([x], And(Or(both(x), hit(x)), Not(g.isnode(it, x))))
        if out.kind == "raise":
            E.prove(Or(over, unknown, *([z3.Exists([x], And(T(x), C(x)))] if C else [])), n + "refused only for overlapping or unknown variables", note=str(out.val)); return
        if C: E.prove(Not(And(T(w), C(w))), n + "targets among the conditioning variables are refused")
        r = out.val
        if len(it.runs) != 1: raise Unsupported("query with several runs")
        q = it.runs[0]; X = it.valuation()
        E.record(n + "asked on the model simplified for the query", isinstance(q.model, Simplified) and q.model.model is m and q.model.target is q.T)
        E.prove(it.member_f(q.T, w) == both(w), n + "the posterior of targets and conditioning variables"); E.prove(same_obs(it, q.ev, ev), n + "given the evidence")
        if not is_factor(it, r, "numpy", n): return
        E.prove(is_var(it, r, w) == both(w), n + "a table over exactly these variables"); E.prove(is_right(it, r, w) == (C(w) if C else z3.BoolVal(False)), n + "the conditioning variables are on the right")
        want = q.val(X) if not C else lib.num_op(it, DIV, q.val(X), it.agg_vars("sum", T, q.val, X))
        E.prove(fval(it, r, X) == want, n + "normalised over the targets"); prove_factor(it, r, n)
    def use(self, it, p):
        from .roles import Answer
        t, c = p["target"], p["conditioning"]; t = Lst(it.E, [One(v) for v in plain(it, t)] if isinstance(t, (str, S)) else it.iter_segs(t), "list")
        return Answer(p["self"], t, c, p["evidence"])
