"""Path exploration and proof obligations (z3).

A function is executed symbolically by re-execution: every branch on a symbolic truth value calls Engine.decide, which
follows the recorded prefix of decisions and then forks where both outcomes are feasible.  Facts are formulas that hold
whatever the inputs (definitions of fresh constants, instances of the theory lemmas); facts found inside a nested
exploration are kept under the condition of the path that produced them."""
import os, time, z3
RATE = 4000
PROF = os.environ.get('PYVC_PROF')
# A path is re-executed from its arguments for every decision.  The executions have to agree, so no term is ever freed (a
# structurally equal term is the same object with the same number) and a term is simplified once.
z3.AstRef.__del__ = lambda self: None
_simplify, _simplified = z3.simplify, {}
def simplify(t):
    i = t.get_id()
    if i not in _simplified: _simplified[i] = _simplify(t)
    return _simplified[i]
z3.simplify = simplify
U, TREE, ASG = z3.DeclareSort("U"), z3.DeclareSort("Tree"), z3.DeclareSort("Asg")
B, I, R = z3.BoolSort(), z3.IntSort(), z3.RealSort()
And, Or, Not, If, Implies = z3.And, z3.Or, z3.Not, z3.If, z3.Implies

class Unsupported(Exception): "outside the subset or the theories of the verifier: undecided, never a violation"
class PathEnd(Exception): "infeasible path"
class PyRaise(Exception):
    "an exception of the interpreted program"
    def __init__(self, cls, msg="", value=None): super().__init__(f"{cls}: {msg}"); self.cls, self.msg, self.value = cls, msg, value

class Frame:
    def __init__(self, prefix, pending): self.prefix, self.i, self.pending = prefix, 0, pending
class Out:
    def __init__(self, conds, kind, val): self.conds, self.kind, self.val = conds, kind, val
    @property
    def cond(self): return conj(self.conds)

def conj(l): l = [x for x in l if not z3.is_true(x)]; return z3.BoolVal(True) if not l else l[0] if len(l) == 1 else And(*l)
def disj(l): l = [x for x in l if not z3.is_false(x)]; return z3.BoolVal(False) if not l else l[0] if len(l) == 1 else Or(*l)
def sort_or(*l): return next((x for x in l if x is not None), None)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def shape(f):
    "the structure of a formula, up to the numbers of its constants"
    if z3.is_quantifier(f): return ("Q", f.is_forall(), f.num_vars(), shape(f.body()))
    if z3.is_var(f): return ("v", z3.get_var_index(f))
    return (f.decl().name().split("!")[0], *(shape(c) for c in f.children())) if z3.is_app(f) else str(f)

class Engine:
    def __init__(self, timeout=4000, max_paths=600, quick=100):
        self.quick = quick
        self.conds, self.facts, self.frames, self.logs = [], [], [], []
        self.top, self.deltas = None, {}
        self.lemmas, self.lemma_ids = [], set()
        self.n, self.births, self.timeout, self.max_paths = 0, 0, timeout, max_paths
        self.solver_s, self.queries, self.paths = 0.0, 0, 0
        self.obligations, self.strings, self.cards = {}, {}, []
        self.deadline = None
        self.lam = z3.Const("lam", U)
        self.assumptions = set(); self.inlined = set(); self.used_contracts = set()

    # ---- names
    def fresh(self, name, sort): self.n += 1; return z3.Const(f"{name}!{self.n}", sort)
    def fresh_fn(self, name, *sorts): self.n += 1; return z3.Function(f"{name}!{self.n}", *sorts)
    def birth(self): self.births += 1; return self.births
    def intern(self, s):
        if s not in self.strings:
            c = z3.Const("str:" + str(s), U)
            self.strings[s] = c
        c = self.strings[s]
        return c
    def string_facts(self):
        v = list(self.strings.values())
        return [z3.Distinct(*v)] if len(v) > 1 else []

    def akey(self, t):
        "identity of a term as a key: structurally equal terms are one object while one of them is alive"
        return t.get_id()

    # ---- solver
    def solver(self, extra=(), timeout=None, mbqi=False):
        s = z3.SimpleSolver(); t = timeout or self.timeout
        s.set("timeout", 20 * t); s.set("rlimit", RATE * t)      # the resource limit decides (reproducible); the time limit is a backstop
        s.set("mbqi", mbqi)
        for f in self.string_facts(): s.add(f)
        for f in self.lemmas: s.add(f)
        for f in self.facts: s.add(f)
        for f in self.conds: s.add(f)
        for f in extra: s.add(f)
        return s
    def check(self, *extra, timeout=None, mbqi=False):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time limit of the function")
        # a path is re-executed from the start for every decision: the same question gets the same answer
        ids = []
        for l in (self.string_facts(), self.lemmas, self.facts, self.conds, extra):
            ids += [f.get_id() for f in l]; ids.append(-1)
        key = (timeout, mbqi, tuple(ids)); memo = self.__dict__.setdefault("answers", {})
        if key in memo: return memo[key]
        t = time.time(); s = self.solver(extra, timeout, mbqi); r = s.check(); d = time.time() - t; self.solver_s += d; self.queries += 1
        if PROF: self.prof(r, d, timeout, s)
        memo[key] = r
        return r
    def prof(self, r, d, timeout, s):
        import traceback
        where = [f"{f.name}:{f.lineno}" for f in traceback.extract_stack()[-9:-2]]
        if d > float(PROF): print(f"      slow rl {[v for k, v in s.statistics() if k == 'rlimit count']} {r} {d:.1f}s lim {timeout} facts {len(self.facts)} lemmas {len(self.lemmas)} {where}")
    def valid(self, f, timeout=None):
        f = z3.simplify(zb(f))
        if z3.is_true(f): return True
        r = self.check(Not(f), timeout=timeout)
        return True if r == z3.unsat else False if r == z3.sat else None
    def fact(self, f):
        if not z3.is_true(f): self.facts.append(f)
    def lemma(self, f):
        "a formula that is true in every path: instance of a theory lemma, or definition of a fresh constant"
        f = z3.simplify(f)
        if z3.is_true(f) or f.get_id() in self.lemma_ids: return
        self.lemma_ids.add(f.get_id()); self.lemmas.append(f)
    def require(self, f):
        "a condition of the current path (precondition, guard)"
        f = z3.simplify(zb(f))
        if z3.is_true(f): return
        if z3.is_false(f) or self.check(f, timeout=self.quick // 2) == z3.unsat: raise PathEnd()
        self.conds.append(f)
    def decide(self, f):
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        fr = self.frames[-1]
        if fr.i < len(fr.prefix):
            b, forced, g = fr.prefix[fr.i]
            if not (z3.eq(f, g) or len(self.frames) > 1 and shape(f) == shape(g)): raise Unsupported("the decisions of a path could not be replayed")
        else:
            pt = self.check(f, timeout=self.quick) != z3.unsat
            pf = self.check(Not(f), timeout=self.quick) != z3.unsat if pt else True
            if pt and pf:
                b, forced = True, False
                fr.pending.append(fr.prefix + [(False, False, f)])
            elif pt: b, forced = True, True
            elif self.check(timeout=self.quick) == z3.unsat: raise PathEnd()
            else: b, forced = False, True
            fr.prefix = fr.prefix + [(b, forced, f)]
        fr.i += 1
        if not forced: self.conds.append(f if b else Not(f))
        return b

    # ---- exploration
    def explore_top(self, fn, reset):
        "the paths of a function: each is executed from its arguments on, so nothing is shared between them"
        pending, count, n0 = [[]], 0, self.n
        while pending:
            count += 1; self.paths += 1; self.n = n0
            if count > self.max_paths: raise Unsupported("too many paths")
            self.conds, self.facts, self.logs, self.cards = [], [], [], []; self.top, self.deltas = None, {}
            self.lemmas, self.lemma_ids = [], set()
            self.apps, self.aggs, self.opened, self.posmemo, self.cardmemo, self.firstmemo, self.fmts = {}, [], {}, {}, {}, {}, {}
            reset()
            self.frames = [Frame(pending.pop(), pending)]
            try: fn()
            except PathEnd: pass
            self.frames = []
    def explore(self, fn, limit=None):
        outs, pending, count = [], [[]], 0
        while pending:
            count += 1; self.paths += 1
            if count > (limit or self.max_paths): raise Unsupported("too many paths")
            if len(self.frames) > 60: raise Unsupported("nesting too deep")
            self.frames.append(Frame(pending.pop(), pending))
            nc, nt, nb, nf, ncard = len(self.conds), self.top, self.births, len(self.facts), len(self.cards)
            try:
                try: outs.append(Out(None, "ok", fn()))
                except PyRaise as e: outs.append(Out(None, "raise", e))
                except PathEnd: outs.append(None)
                path = self.conds[nc:]
                if outs[-1] is None: outs.pop()
                else: outs[-1].conds = path
            finally:
                path = self.conds[nc:]; del self.conds[nc:]; del self.cards[ncard:]
                self.frames.pop(); self.undo(nt, nb)
                if path:
                    c = conj(path); self.facts[nf:] = [Implies(c, f) for f in self.facts[nf:]]
        return outs
    # ---- states of the mutable objects: a tree of writes; the state now is that of the node `top`
    def undo(self, to, nb):
        after = None
        while self.top is not to:
            m = self.top; self.top = m.prev; m.next = after; after = m
            m.restored = m.obj.birth <= nb
            if m.restored: m.put(m.pre)
    def later(self, f):
        "f, to be called with the objects in the state that they have now"
        if f is None or hasattr(f, "vc_state"): return f
        at, birth = self.top, self.births
        def g(*a):
            if self.top is at: return f(*a)
            return self.travel(at, birth, f, a)
        g.vc_state = at; return g
    def travel(self, at, birth, f, a):
        top = self.top; k = (id(at), id(top), birth); d = self.deltas.get(k)
        if d is None: d = self.delta(at, top, birth); self.deltas[k] = d
        if not d: return f(*a)
        cur = [(m, m.get()) for m, v in d]; nb = self.births
        for m, v in d: m.put(v)
        self.top = at
        try: return f(*a)
        finally:
            self.undo(at, nb); self.top = top
            for m, v in cur: m.put(v)
    def delta(self, at, top, birth):
        "the cells that differ between the states of two nodes, with their values at the first; only of objects that were there then"
        up, down, a, b = [], [], top, at
        while a is not b:
            if b is None or a is not None and a.n > b.n: up.append(a); a = a.prev
            else: down.append(b); b = b.prev
        out = {}
        def put(m, v):
            if m.obj.birth <= birth: out[id(m.obj), m.key] = (m, v)
        for m in up: put(m, m.pre)
        # writes of an abandoned path to objects that it left as they were in the end
        x = at
        for m in [None] + down:
            y = x.next if m is None and x is not None else m.next if m is not None else None
            tail = []
            while y is not None and y not in down: tail.append(y); y = y.next
            for y in reversed(tail):
                if not y.restored: put(y, y.pre)
        for m in reversed(down): put(m, m.post)
        return [(m, v) for m, v in out.values() if not same_cell(m.get(), v)]
    def merge_bool(self, fn):
        outs = self.explore(lambda: zb(fn()))
        for o in outs:
            if o.kind == "raise": raise Unsupported(f"exception inside a formula: {o.val}")
        return z3.simplify(disj([conj(o.conds + [o.val]) for o in outs]))
    def merge_term(self, fn, what="a term"):
        outs = self.explore(fn)
        for o in outs:
            if o.kind == "raise": raise Unsupported(f"exception inside {what}: {o.val}")
        if not outs: raise PathEnd()
        t = outs[-1].val
        for o in reversed(outs[:-1]): t = o.val if z3.eq(o.val, t) else If(o.cond, o.val, t)
        return t

    # ---- mutable objects
    def write(self, obj, key, value, effect=None):
        "every write: the cell of the object gets the value"
        if getattr(obj, "treenode", False) and not getattr(obj, "inp", None): raise Unsupported("write into a node of a tree")
        if getattr(obj, "frozen", False): raise Unsupported("change of a value inside of a comprehension")
        self.touched(obj, effect); m = Mut(obj, key, value, self.top); self.top = m; m.put(value)
    def touched(self, obj, effect):
        for lg in self.logs:
            if obj.birth <= lg.birth: lg.effects.append((obj, effect))
        if getattr(obj, "inp", None) and not getattr(self, "mute_frame", False): self.record(f"frame: {obj.inp} is not modified", False)
    def read(self, obj, key=None):
        for lg in self.logs:
            if obj.birth <= lg.birth: lg.reads.append((obj, key))

    # ---- obligations
    def record(self, name, status, model=None, s=0.0):
        st = {True: "discharged", False: "refuted", None: "unknown"}[status]
        o = self.obligations.setdefault(name, dict(name=name, status="discharged", paths=0, s=0.0, model=None, why=None))
        o["paths"] += 1; o["s"] += s
        order = ["discharged", "unknown", "refuted"]
        if order.index(st) > order.index(o["status"]): o["status"] = st; o["model"] = model
    def prove(self, f, name, note=""):
        f = z3.simplify(zb(f))
        t = time.time(); model = None
        if z3.is_true(f): ok = True
        else:
            r = self.check(Not(f))
            if r != z3.unsat:
                s = self.solver([Not(f)], timeout=self.timeout * 3, mbqi=True); r = s.check(); self.queries += 1
            if r == z3.unknown:
                s = self.solver([Not(f)]); s.set("random_seed", 7); r1 = s.check(); self.queries += 1; r = r1 if r1 == z3.unsat else r
            ok = True if r == z3.unsat else None
            if r == z3.sat:
                m = s.model()
                # a candidate counterexample counts only if the model really satisfies everything
                ok = False; model = (note + " " if note else "") + str(m)[:1500]
        self.solver_s += time.time() - t
        self.record(name, ok, model, time.time() - t)
        return ok
MISSING = object()
def same_cell(a, b): return a is b or isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(x is y for x, y in zip(a, b))
class Mut:
    "a write: object, cell, values before and after"
    __slots__ = ("obj", "key", "pre", "post", "prev", "next", "n", "restored")
    def __init__(self, obj, key, value, prev):
        self.obj, self.key, self.post, self.prev, self.next, self.restored = obj, key, value, prev, None, True
        self.n = 1 if prev is None else prev.n + 1; self.pre = self.get()
    def get(self):
        o, k = self.obj, self.key
        if isinstance(k, tuple): return tuple(getattr(o, x) for x in k[1:])      # (attributes of the representation)
        return (o.vars if hasattr(o, "vars") else o.attrs).get(k, MISSING)
    def put(self, v):
        o, k = self.obj, self.key
        if isinstance(k, tuple):
            for x, y in zip(k[1:], v): setattr(o, x, y)
            return
        d = o.vars if hasattr(o, "vars") else o.attrs
        if v is MISSING: d.pop(k, None)
        else: d[k] = v
class Log:
    def __init__(self, birth): self.birth, self.effects, self.reads = birth, [], []
