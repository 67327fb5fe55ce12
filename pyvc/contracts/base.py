"""Contract classes.  A contract names a function of /repo, builds its arguments under the preconditions, states the
obligations on the outcome, and gives callers the postcondition (use)."""
import z3
from ..core import *
from ..values import *
from ..ops import real
from ..theory import *
from .. import lib

REG = {}
class Contract:
    key = None
    props = ()          # properties that the obligations of this function serve
    trusted = False     # used by callers, its body is not verified here
    why_trusted = ""
    cases = (None,)     # variants of the arguments
    def args(self, it, case): raise NotImplementedError
    def post(self, it, case, a, out): raise NotImplementedError
    def use(self, it, vars): raise Unsupported(f"no call-site contract for {self.key}")
    may_raise = ()
def register(c):
    c = c()
    REG[c.key] = c
    return c
def func(it, key): return it.get_func(key)

def no_exc(it, out, name):
    "the function raises on no input that meets the precondition; True if this path ends in an exception"
    if out.kind != "raise": it.E.record(name, True); return False
    it.E.prove(z3.BoolVal(False), name, note=str(out.val)); return True
def names_base(it, name):
    "a list of variable names of unknown length, without repetitions"
    f = it.E.fresh_fn("in_" + name, U, B)
    return Base(it.E, name, U, lambda x: f(x), kind="name")
def domain_dict(it, name, inp=None):
    "a domain: unknown variables in an unknown order, each with its list of states"
    b = names_base(it, name)
    return Dct(it.E, [DGen(b, it.E.fresh("x_" + name, U), z3.BoolVal(True), lambda x: it.states(x))], inp=inp, ordered=True)

# ---- loop invariants
class LoopInv:
    """invariant of a loop.  roles(it, env, names): the variables that the loop changes, by role, as {role: name} (found by what they
    hold, not by how they are called); havoc(it, vals): new arbitrary values; holds(it, vals): list of (what, formula);
    measure(it, old, new): list of (what, formula) that bound the number of rounds"""
    def roles(self, it, env, names): raise NotImplementedError
    def havoc(self, it, vals): raise NotImplementedError
    def holds(self, it, vals): raise NotImplementedError
    def measure(self, it, old, new): return []
    label = "loop"
    def __call__(self, it, s, env, itv):
        import ast
        from ..interp import assigned_names, loads, BreakSig, ContinueSig
        E = it.E
        if isinstance(s, ast.For): raise Unsupported("invariant of a for loop")
        ass = assigned_names(s.body); names = []
        for k in sorted(ass | loads(s)):
            try: env.get(k); names.append(k)
            except KeyError: pass
        self.assigned = ass; roles = self.roles(it, env, [n for n in names if not isinstance(env.get(n), Poison)])
        for what, f in self.holds(it, {r: env.get(n) for r, n in roles.items()}): E.prove(f, f"{self.label}: {what} (on entry)")
        vals = self.havoc(it, {r: env.get(n) for r, n in roles.items()})
        for r, n in roles.items():
            if vals[r] is not env.get(n): env.set(n, vals[r])
        for what, f in self.holds(it, vals): E.fact(f)
        for k in sorted(ass - set(roles.values())): env.set(k, Poison(f"{k} of an earlier round"))
        if not it.truth(it.ev(s.test, env)): it.exec_block(s.orelse, env); return
        old = self.freeze(it, vals)
        from ..core import Log
        lg = Log(E.births); E.logs.append(lg)
        try: it.exec_block(s.body, env)
        except BreakSig: return
        except ContinueSig: pass
        finally: E.logs.remove(lg)
        ok = [x for v in vals.values() for x in (v, getattr(v, "orig", None))]
        for o, e in lg.effects:
            if not hasattr(o, "vars") and not any(o is x for x in ok): raise Unsupported("loop that changes something outside of its invariant")
            if hasattr(o, "vars") and e[1] not in ass: raise Unsupported("loop that changes another variable")
        new = {r: env.get(n) for r, n in roles.items()}
        for what, f in self.holds(it, new): E.prove(f, f"{self.label}: {what} (kept by every round)")
        for what, f in self.measure(it, old, new): E.prove(f, f"{self.label}: {what}")
        raise PathEnd()
    def freeze(self, it, vals): return dict(vals)
class ForInv:
    """invariant of a for loop over a collection of unknown length, in terms of the set P of the elements already visited (any set:
    the order of the visits is not used).  objects(it): the objects that the rounds change; assume(it, P): puts them into the state
    that the invariant describes; claim(it, P): list of (what, formula) to prove about the current state"""
    label = "loop"
    def objects(self, it): raise NotImplementedError
    def assume(self, it, P): raise NotImplementedError
    def claim(self, it, P): raise NotImplementedError
    def ready(self, it, s, env, itv): return True
    def __call__(self, it, s, env, itv):
        from ..interp import assigned_names, BreakSig, ContinueSig, Env
        E = it.E; segs = it.iter_segs(itv)
        if not (len(segs) == 1 and isinstance(segs[0], Gen) and segs[0].base.sort == U) or not self.ready(it, s, env, itv): raise Unsupported("loop without invariant")
        seg = segs[0]
        for what, f in self.claim(it, lambda x: z3.BoolVal(False)): E.prove(f, f"{self.label}: {what} (on entry)")
        P = E.fresh_fn("visited", U, B); x = z3.Const("vx", U); E.fact(z3.ForAll([x], Implies(P(x), seg.has(x)), patterns=[P(x)]))
        self.assume(it, lambda y: P(y))
        names = assigned_names(s.body) | assigned_names([s.__class__(target=s.target, iter=s.iter, body=[], orelse=[])] if False else []) | {n.id for n in __import__("ast").walk(s.target) if hasattr(n, "id")}
        for k in sorted(names): env.set(k, Poison(f"{k} of an earlier round"))
        if E.decide(E.fresh("round", B)):
            c = E.fresh("it", U); E.require(seg.has(c)); E.require(Not(P(c)))
            it.bind_target(s.target, seg.elem(c), env); lg = Log(E.births); E.logs.append(lg); objs = self.objects(it)
            try: it.exec_block(s.body, env)
            except ContinueSig: pass
            except BreakSig: raise Unsupported("break in a loop with invariant")
            finally: E.logs.remove(lg)
            for o, e in lg.effects:
                if not isinstance(o, Env) and not any(o is y for y in objs): raise Unsupported("loop that changes something outside of its invariant")
                if isinstance(o, Env) and e[1] not in names: raise Unsupported("loop that changes another variable")
            for what, f in self.claim(it, lambda y: Or(P(y), y == c)): E.prove(f, f"{self.label}: {what} (kept by every round)")
            raise PathEnd()
        E.fact(z3.ForAll([x], Implies(seg.has(x), P(x))))
        for k in sorted(names): env.set(k, Poison(f"{k} after a loop"))
        it.exec_block(s.orelse, env)
def one_of(env, names, ok, what):
    l = [n for n in names if ok(env.get(n))]
    if len(l) != 1: raise Unsupported(f"loop: {what} not identified")
    return l[0]

# ---- graphs
def sym_graph(it, name="g", acyclic=False, inp=True):
    "an arbitrary directed graph: nodes in some order, arcs between nodes"
    E = it.E; b = names_base(it, name); edge = E.fresh_fn("edge_" + name, U, U, B); x, y = z3.Consts("gx gy", U)
    E.fact(z3.ForAll([x, y], Implies(edge(x, y), And(b.mem(x), b.mem(y))), patterns=[edge(x, y)]))
    g = lib.GraphV(E, Lst(E, [gen_of(E, b)], "keys"), lambda u, v: edge(u, v), name=name)
    if inp: g.inp = f"graph {name}"
    if acyclic:
        g.rank = E.fresh_fn("rank_" + name, U, I)
        E.fact(z3.ForAll([x, y], Implies(edge(x, y), g.rank(x) < g.rank(y)), patterns=[edge(x, y)])); lib.add_rank(it, g.rank)
    return g
def topmost(it, P, rank, nodes):
    "lemma: a nonempty set of nodes has one of highest rank (the nodes are finitely many)"
    E = it.E; m = E.fresh("top", U); y, z = z3.Consts("ty tz", U)
    E.lemma(Or(z3.ForAll([y], Not(And(nodes(y), P(y)))), And(nodes(m), P(m), z3.ForAll([z], Implies(And(nodes(z), P(z)), rank(z) <= rank(m))))))
    return m
def is_graph(it, v, n):
    ok = isinstance(v, lib.GraphV); it.E.record(n + "returns a directed graph", ok); return ok
def prove_graph(it, r, nodes, edge, n):
    E = it.E; E.prove(it.same_keys_f(r.nodes, nodes), n + "nodes and their order")
    x, y = E.fresh("x", U), E.fresh("y", U)
    E.prove(Implies(And(r.isnode(it, x), r.isnode(it, y)), r.edge(x, y) == edge(x, y)), n + "arcs")
def graph_where(it, g, keep, edge=None):
    "a graph with the nodes that meet a condition (no sharing)"
    return lib.GraphV(it.E, lib.filter_nodes(it, g.nodes, keep), edge or g.edge)
