"""Theories the obligations are stated in: state spaces of variables, trees, tables, aggregates over finite sets, assignments.

Lemmas about finite aggregates and about the values of trees and tables are instantiated on the terms that occur, with
fresh (skolem) elements in place of the inner quantifiers."""
import z3
from .core import *
from .values import *

st_in, st_lt, st_size = z3.Function("st_in", U, U, B), z3.Function("st_lt", U, U, U, B), z3.Function("st_size", U, I)
isleaf, leafval, tvar, tchild = z3.Function("isleaf", TREE, B), z3.Function("leafval", TREE, R), z3.Function("tvar", TREE, U), z3.Function("tchild", TREE, U, TREE)
occ, wf = z3.Function("occ", TREE, U, B), z3.Function("wf", TREE, B)
ap = z3.Function("ap", ASG, U, U)

def S_real(v):
    from .ops import real
    return real(v)
class AsgBase(Base):
    "(several terms may stand for the same assignment: no order, no length)"
    @property
    def lt(self): raise Unsupported("order of assignments")
    @property
    def length(self): raise Unsupported("number of assignments")
class AsgTuple:
    "one joint assignment of a domain, as a tuple of states"
    def __init__(self, axes, a): self.axes, self.a = axes, a
    def vc_iter(self, it):
        st = lambda x: S(ap(self.a, x), "state")
        return [One(st(it.uterm(s.k))) if isinstance(s, DOne) else Gen(s.base, s.c, s.g, st) for s in self.axes.segs]
class Theory:
    "mixin of the interpreter"
    def th_init(self):
        self.row_dict = None; self.data_frame = None; self.int_ranges = False; self.table_facts = lambda y: None; self.table_witnesses = []
        E = self.E
        E.apps, E.aggs, self._bases, self._asgs = {}, [], {}, []
        self._aggmemo = {}; self._anyX = None; self._tmpl = None; self._ranks, self._cyclic = [], []; self._rebased = {}; self._asgat = []; self.argmaxes = []
        v = z3.Const("v", U); s = z3.Const("s", U)
        E.lemma(z3.ForAll([v], st_size(v) >= 1, patterns=[st_size(v)]))
    # ---- states of a variable
    def states_base(self, v):
        v = z3.simplify(v); k = v.get_id()
        b = self._bases.get(k)
        if b is None or not z3.eq(b.var, v):
            b = Base(self.E, "states", U, lambda s: st_in(v, s), lambda s, t: st_lt(v, s, t), lambda x: S(x, "state"), st_size(v), "state")
            b.var = v; self._bases[k] = b
            w = self.E.fresh("s0", U)
            self.E.lemma(st_in(v, w)); self.E.lemma(st_size(v) >= 1)      # domains are not empty
        return b
    def states(self, v):
        "the list of the states of the variable (term) v"
        l = Lst(self.E, [gen_of(self.E, self.states_base(v))]); l.statesof = v; return l
    # ---- valuations
    def valuation(self, name="X"):
        f = self.E.fresh_fn(name, U, U); w = z3.Const("w", U)
        self.E.lemma(z3.ForAll([w], st_in(w, f(w)), patterns=[f(w)]))
        return f(self.E.lam)
    # ---- applications: value of a named object at a valuation
    def app(self, sym, args, X, dep, sort=R):
        "value of sym(args) at X, which depends on X at the labels w with dep(w)"
        E = self.E; X = z3.simplify(X); reg = E.apps.setdefault(sym, [])
        for a, Y, r, d in reg:
            if z3.eq(X, Y) and len(a) == len(args) and all(z3.eq(x, y) for x, y in zip(a, args)): return r
        r = E.fresh("val", sort)
        for a, Y, q, d in reg:
            w = E.fresh("w", U)
            E.lemma(Or(r == q, *[x != y for x, y in zip(a, args)], And(dep(w), self.lam_at(X, w) != self.lam_at(Y, w))))
        reg.append((list(args), X, r, dep))
        return r
    # ---- aggregates
    def agg(self, kind, has, sort, body, size=None, nonempty=False):
        "sum / max / min / prod of body(c) over the c with has(c) (finitely many); body: term -> Real term"
        E = self.E; has, body = E.later(has), E.later(body)
        r, c0 = E.fresh(kind, R), E.fresh("c", sort)
        if nonempty: E.fact(has(c0))
        b0 = body(c0)
        for (k2, so2, has2, body2, r2) in E.aggs:
            if so2 != sort: continue
            c = E.fresh("c", sort)
            if {k2, kind} == {"min", "max"}: E.lemma(Or(r2 <= r if k2 == "min" else r <= r2, Not(has(c0)), has(c) != has2(c), And(has(c), body(c) != body2(c))))
            if k2 != kind: continue
            E.lemma(Or(r == r2, has(c) != has2(c), And(has(c), body(c) != body2(c))))
        c1 = E.fresh("c", sort)
        diff = And(has(c1), body(c1) != b0)
        pre = has(c0)
        if kind == "sum" and size is not None: E.lemma(Implies(pre, Or(r == z3.ToReal(size) * b0, diff)))
        if kind in ("max", "min"): E.lemma(Implies(pre, Or(r == b0, diff)))
        E.aggs.append((kind, sort, has, body, r))
        return r
    def agg_states(self, kind, v, body):
        self.states_base(v)
        return self.agg(kind, lambda s: st_in(v, s), U, body, st_size(v), True)
    # ---- joint assignments of a set of variables
    def merge_asg(self, X, P, a):
        "X, with the labels in P (predicate) replaced by those of the assignment a"
        lam = self.E.lam
        return If(P(lam), ap(a, lam), X)
    def agg_vars(self, kind, P, valf, X):
        """aggregate of valf over all the assignments of the labels w with P(w).  The assignments of two equal sets of
        labels are the same; an assignment has a state of each of its labels."""
        E = self.E; P, valf = E.later(P), E.later(valf)
        def has(a):
            w = z3.Const("w", U)
            return z3.ForAll([w], Implies(P(w), st_in(w, ap(a, w))), patterns=[ap(a, w)])
        r = E.fresh(kind + "V", R)
        body = lambda a: valf(self.merge_asg(X, P, a))
        def asg():
            a = E.fresh("a", ASG); E.lemma(has(a)); return a
        a0 = asg()
        for (k2, P2, body2, r2) in self._asgs:
            if k2 != kind: continue
            a = asg(); w = E.fresh("w", U)
            # bodies are compared on assignments of the first set; when the sets are equal these are those of the second
            E.lemma(Or(r == r2, P(w) != P2(w), body(a) != body2(a)))
        # no variables: the value itself; the body of the only (empty) assignment
        w = E.fresh("w", U); E.lemma(Or(P(w), r == valf(X)))
        self._asgs.append((kind, P, body, r))
        return r

    # ---- lists over the joint assignments of a domain (itertools.product of its lists of states), in row-major order
    def product_of(self, axes):
        E = self.E; k = self.keys(axes); w = z3.Const("w", U)
        has = lambda a: z3.ForAll([w], Implies(self.member_f(k, w), st_in(w, ap(a, w))), patterns=[ap(a, w)])
        b = AsgBase(E, "assignments", ASG, has, wrap=lambda a: AsgTuple(axes, a)); b.axes = axes; return b
    def asg_at(self, axes, X):
        "the assignment of the labels of the axes that agrees with the valuation X"
        E = self.E; X = z3.simplify(X); k = self.keys(axes)
        for A, Y, a in self._asgat:
            if A is axes and z3.eq(X, Y): return a
        a = E.fresh("asg", ASG); w = z3.Const("w", U); E.lemma(z3.ForAll([w], Implies(self.member_f(k, w), ap(a, w) == self.lam_at(X, w)), patterns=[ap(a, w)]))
        self._asgat.append((axes, X, a)); return a
    def asg_elem(self, s, ax=None):
        "value at a valuation of a list over assignments, read as a table over the axes ax"
        E = self.E; axes = s.base.axes
        if not z3.is_true(z3.simplify(s.g)): raise Unsupported("table from some of the assignments")
        if ax is not None and ax is not axes and E.valid(self.same_keys_f(self.keys(ax), self.keys(axes))) is not True: raise Unsupported("table over other axes than the list")
        def val(X):
            a = self.asg_at(axes, X)
            def el():
                E.require(s.base.mem(a)); v = self.lib.as_number(self, s.elem(a))
                return v.t if isinstance(v, S) and v.t.sort() == U else self.uterm(v) if isinstance(v, str) else S_real(v)
            return E.merge_term(el)
        return val
    def agg_asg(self, kind, s):
        k = self.keys(s.base.axes); f = self._anyX
        if f is None: f = self._anyX = self.valuation("X0")
        return self.agg_vars(kind, lambda w: self.member_f(k, w), self.asg_elem(s), f)
    # ---- trees
    def open_tree(self, t):
        "facts about the structure of the tree term t"
        E = self.E
        if not hasattr(E, "opened"): E.opened = {}
        k = t.get_id()
        if k in E.opened and len(E.facts) >= E.opened[k][0] and E.opened[k][1] is t: pass
        s, w = z3.Const("s", U), z3.Const("w", U)
        E.lemma(Implies(And(Not(isleaf(t)), wf(t)), And(occ(t, tvar(t)),
            z3.ForAll([s], Implies(st_in(tvar(t), s), And(wf(tchild(t, s)), Not(occ(tchild(t, s), tvar(t))))), patterns=[tchild(t, s)]),
            z3.ForAll([s, w], Implies(And(st_in(tvar(t), s), occ(tchild(t, s), w)), occ(t, w)), patterns=[occ(tchild(t, s), w)]))))
        E.lemma(Implies(isleaf(t), And(wf(t), z3.ForAll([w], Not(occ(t, w)), patterns=[occ(t, w)]))))
    def new_tree(self, name="tree", ev=None, t=None):
        t = self.E.fresh(name, TREE) if t is None else t
        return TreeVal(self.E, t, ev)
    def tree_eval(self, v, X):
        "value of a tree (python value) at the valuation X; valid where X is in the domains"
        E = self.E
        if isinstance(v, (int, float)) or isinstance(v, S) and v.t.sort() in (I, R): return real_(v)
        if isinstance(v, Tensor): return self.scalar_of(v)
        if isinstance(v, TreeVal):
            if v.ev is not None:
                self.open_tree(v.t)
                r = v.ev(X); E.lemma(Implies(isleaf(v.t), r == leafval(v.t))); return r
            r = self.app("tree", [v.t], X, lambda w: occ(v.t, w))
            E.lemma(Implies(isleaf(v.t), r == leafval(v.t)))
            if v.opened or getattr(v, "unfold", False):
                var = tvar(v.t); ch = TreeVal(E, tchild(v.t, self.lam_at(X, var)))
                E.lemma(Implies(Not(isleaf(v.t)), r == self.tree_eval(ch, X)))
            return r
        if isinstance(v, Dct):
            var = self.uterm(self.dget(v, "var")); ch = self.dget(v, "children")
            if not isinstance(ch, Dct): raise Unsupported("children of a tree")
            return self.tree_eval(self.dget(ch, S(self.lam_at(X, var), "state")), X)
        raise Unsupported(f"tree expected: {v!r}")
    def tree_occ(self, v, w):
        "formula: w occurs in the tree"
        E = self.E
        if isinstance(v, (int, float)) or isinstance(v, S): return z3.BoolVal(False)
        if isinstance(v, Tensor): return z3.BoolVal(False)
        if isinstance(v, TreeVal): self.open_tree(v.t); return occ(v.t, w)
        if isinstance(v, Dct):
            var = self.uterm(self.dget(v, "var")); ch = self.dget(v, "children")
            out = [w == var]
            for s in ch.segs:
                if isinstance(s, DOne): out.append(E.merge_bool(lambda s=s: self.tree_occ(self.dget(ch, s.k), w)))
                else:
                    c = E.fresh("c", U)
                    f = E.merge_bool(lambda s=s: (E.require(s.has(c)), self.tree_occ(self.dget(ch, S(c, "state")), w))[1])
                    out.append(And(s.has(c), f))       # c is chosen by the prover: use only in negative position
            return disj(out)
        raise Unsupported(f"tree expected: {v!r}")
    def prove_tree_wf(self, v, name):
        E = self.E
        if isinstance(v, (int, float, S, Tensor)): E.record(name, True); return
        if isinstance(v, TreeVal): self.open_tree(v.t); E.prove(wf(v.t), name); return
        if isinstance(v, Dct):
            ks = self.keys(v)
            if not (ks.concrete and sorted(map(str, ks.items)) == ["children", "var"]): E.record(name, False, "node without var and children"); return
            var = self.uterm(self.dget(v, "var")); ch = self.dget(v, "children")
            kl = self.keys(ch); E.prove(self.same_keys_f(kl, self.states(var)), name + " (children are the states)")
            c = E.fresh("c", U)
            def child():
                E.require(self.member_f(kl, c)); x = self.dget(ch, S(c, "state"))
                E.prove(Not(self.tree_occ(x, var)), name); self.prove_tree_wf(x, name)
            E.explore(child); return
        raise Unsupported(f"tree expected: {v!r}")

def real_(x):
    from .ops import real
    return real(x)

class Theory2:
    "operations on trees and tables that the library models need"
    def scalar_of(self, t):
        "the value of a table without axes"
        E = self.E
        if t.axes.segs and E.decide(self.nonempty_f(t.axes.segs)): raise Unsupported("scalar from a table with axes")
        f = getattr(self, "_anyX", None)
        if f is None: f = self._anyX = self.valuation("X0")
        return t.val(f)
    def leafnum(self, tv):
        E = self.E
        self.open_tree(tv.t)
        if E.decide(isleaf(tv.t)): return leafval(tv.t)
        raise Unsupported("number from an inner node")
    def tree_const(self, tv): return self.leafnum(tv)
    def gen_same_src(self, s, t):
        return isinstance(s, Gen) and isinstance(t, Gen) and s.base is t.base and z3.eq(z3.simplify(z3.substitute(s.g, (s.c, t.c))), z3.simplify(t.g))
    def tree_children(self, tv):
        var = tvar(tv.t)
        b = self.states_base(var)
        def child(s):
            c = TreeVal(self.E, tchild(tv.t, s))
            if tv.ev is not None: c.ev = lambda X, s=s: tv.ev(If(self.E.lam == var, s, X))
            c.inp = tv.inp; self.open_tree(c.t); return c
        d = Dct(self.E, [DGen(b, self.E.fresh("s", U), z3.BoolVal(True), child)], inp=tv.inp); d.treenode = True      # a write to a node of a tree does not reach the tree in this model
        return d
    def reduce_trees(self, fn, s):
        """reduce over the trees elem(c), c in the segment: the operation is applied to two arbitrary trees to find how it acts
        on the values; the fold is the aggregate of the values (induction over the list)"""
        from .lib import detect
        E = self.E
        A, Bt = self.new_tree("ta"), self.new_tree("tb")
        E.lemma(wf(A.t)); E.lemma(wf(Bt.t))
        self.open_tree(A.t); self.open_tree(Bt.t)
        X = self.valuation("Xr")
        def run():
            r = self.call(fn, [A, Bt], {})
            a, b = self.tree_eval(A, X), self.tree_eval(Bt, X)
            k = detect(self, self.tree_eval(r, X), a, b)
            w = E.fresh("w", U)
            ok = E.valid(Implies(self.tree_occ(r, w), Or(occ(A.t, w), occ(Bt.t, w))))
            if ok is not True: raise Unsupported("reduce introduces variables")
            return k
        outs = E.explore(run)
        kinds = {o.val if o.kind == "ok" else "raise" for o in outs}
        if len(kinds) != 1 or None in kinds or "raise" in kinds: raise Unsupported("reduce with an operation that is not recognised")
        kind = kinds.pop()
        res = self.new_tree("fold"); E.fact(wf(res.t)); self.open_tree(res.t)
        w = z3.Const("w", U); c = E.fresh("c", s.base.sort)
        # occ(fold, w) only if w occurs in some element: witness function
        wit = E.fresh_fn("wit", U, s.base.sort)
        oc = E.merge_bool(lambda: (E.require(s.has(c)), self.tree_occ(s.elem(c), w))[1])
        E.fact(z3.ForAll([w], Implies(occ(res.t, w), And(s.has(wit(w)), z3.substitute(oc, (c, wit(w))))), patterns=[occ(res.t, w)]))
        size = s.base.length if z3.is_true(z3.simplify(s.g)) else None
        def ev(X):
            memo = {}
            def body(y):
                if y.get_id() not in memo: memo[y.get_id()] = (y, E.merge_term(lambda: (E.require(s.has(y)), self.tree_eval(s.elem(y), X))[1]))
                return memo[y.get_id()][1]
            return self.agg(kind, s.has, s.base.sort, body, size, True)
        res.ev = memo_ev(ev, E)
        return res
def memo_ev(ev, E=None):
    cache = {}
    if E is not None: ev = E.later(ev)
    def f(X):
        X = z3.simplify(X); k = X.get_id()
        if k not in cache: cache[k] = (X, ev(X))
        return cache[k][1]
    return f
class Theory3:
    def fold_tree(self, s, seg, env, k, body, init):
        """loop over a list without repetitions that carries a tree: each round sums (or maximises) the element's variable out;
        the rounds together aggregate over the joint assignments of all the listed variables (iterated sums over a product)"""
        from .contracts.trees import as_tree
        E = self.E
        A = self.new_tree("acc"); E.lemma(wf(A.t)); self.open_tree(A.t)
        c = E.fresh("it", seg.base.sort); w0 = z3.Const("w", U)
        X = self.valuation("Xf")
        # the tree has only variables of the initial one
        io = init.t
        E.lemma(z3.ForAll([w0], Implies(occ(A.t, w0), occ(io, w0)), patterns=[occ(A.t, w0)]))
        def run():
            E.require(seg.has(c)); r = as_tree(self, body(c, A))
            w = E.fresh("w", U)
            if E.valid(Implies(self.tree_occ(r, w), And(occ(A.t, w), w != c))) is not True: raise Unsupported("loop over variables that does not remove them")
            val = self.tree_eval(r, X)
            for kind in ("sum", "max"):
                spec = self.agg_states(kind, c, lambda st: self.tree_eval(A, If(E.lam == c, st, X)))
                if E.valid(val == spec) is True: return kind
            return None
        outs = E.explore(run)
        for o in outs:
            if o.kind == "raise" and E.decide(z3.Exists([c], And(seg.has(c), o.cond))): raise o.val
        kinds = {o.val for o in outs if o.kind == "ok"}
        if len(kinds) != 1 or None in kinds: raise Unsupported("loop that carries a tree")
        kind = kinds.pop(); P = lambda w: seg.has(w)
        res = self.new_tree("fold")
        E.fact(wf(res.t)); E.fact(z3.ForAll([w0], Implies(occ(res.t, w0), And(occ(io, w0), Not(P(w0)))), patterns=[occ(res.t, w0)])); self.open_tree(res.t)
        res.ev = memo_ev(lambda X: self.agg_vars(kind, P, lambda Y: self.tree_eval(init, Y), X), E)
        E.assumptions.add("lemma (not proved here): iterated sums or maxima over finite domains equal the sum or maximum over the joint assignments, in any order")
        return res
