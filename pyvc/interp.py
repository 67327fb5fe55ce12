"""Symbolic interpreter of the real source files of /repo (python AST), on the values of values.py."""
import ast, builtins, os, z3, sys
from .core import *
from .values import *
from .ops import *
from .theory import *
sys.setrecursionlimit(20000)

class ReturnSig(Exception):
    def __init__(self, v): self.v = v
class BreakSig(Exception): pass
class ContinueSig(Exception): pass

def own_nodes(n):
    "the nodes of a statement that are not inside of a function defined in it"
    yield n
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): return
    for c in ast.iter_child_nodes(n): yield from own_nodes(c)
class Env:
    def __init__(self, E, vars, parent, module, func=None): 
        self.E, self.vars, self.parent, self.module, self.func, self.birth, self.inp = E, vars, parent, module, func, E.birth(), None
        self.globals_, self.nonlocals = set(), set()
    def get(self, k):
        e = self
        while e is not None:
            if k in e.vars: return e.vars[k]
            e = e.parent
        raise KeyError(k)
    def set(self, k, v):
        e = self
        if k in self.nonlocals:
            e = self.parent
            while k not in e.vars: e = e.parent
        e.E.write(e, k, v, ("env", k))
    def snapshot(self):
        v = {}
        for k, x in self.vars.items():
            if isinstance(x, (Lst, Dct)):
                y = x.snap(); y.birth = x.birth; y.orig = getattr(x, "orig", x); y.inp = None
                x = y
            elif isinstance(x, St):
                y = St(x.E, x.sort, x.pred, x.vals, x.wrap, x.kind, base=x.base); y.birth = x.birth; y.orig = getattr(x, "orig", x); x = y
            v[k] = x
        e = Env(self.E, v, self.parent, self.module, self.func); e.globals_, e.nonlocals = self.globals_, self.nonlocals
        e.birth = self.birth
        return e

def orig(o): return getattr(o, "orig", o)

def assigned_names(stmts):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for s in stmts: V().visit(s)
    return out
def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
def carried_names(stmts, targets):
    "names read in the body before they are assigned in it, and assigned in it"
    ass = assigned_names(stmts); exposed = set()
    def go(body, defined):
        for s in body:
            if isinstance(s, ast.If):
                exposed.update(loads(s.test) - defined); d1, d2 = set(defined), set(defined)
                go(s.body, d1); go(s.orelse, d2); defined |= (d1 & d2)
            elif isinstance(s, (ast.For, ast.While)):
                exposed.update((loads(s.iter) if isinstance(s, ast.For) else loads(s.test)) - defined)
                d = set(defined) | (assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))]) if isinstance(s, ast.For) else set())
                go(s.body, d); go(s.orelse, set(defined))
            elif isinstance(s, ast.With):
                for it in s.items: exposed.update(loads(it.context_expr) - defined)
                go(s.body, defined)
            elif isinstance(s, ast.Assign):
                exposed.update(loads(s.value) - defined)
                for t in s.targets:
                    exposed.update({n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - defined)
                    defined |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            elif isinstance(s, ast.AugAssign):
                exposed.update(loads(s.value) - defined)
                if isinstance(s.target, ast.Name): exposed.update({s.target.id} - defined)
                else: exposed.update(loads(s.target) - defined)
            elif isinstance(s, ast.FunctionDef): exposed.update(loads(s) - defined); defined.add(s.name)
            elif isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)): exposed.update(loads(s) - defined); defined |= ass      # (nothing follows on this path)
            else:
                exposed.update(loads(s) - defined); defined |= assigned_names([s])
    go(stmts, set(targets))
    return sorted(exposed & ass)

class Interp(Theory3, Theory2, Theory, Ops):
    def __init__(self, E, repo, contracts=None):
        self.atoms = {}     # objects of an unknown number (elements of lists): attributes by kind
        self.E, self.repo, self.contracts = E, repo, contracts or {}
        self.modules, self.depth, self.verifying, self.callstack = {}, 0, None, []
        self.loop_inv = {}
        self.th_init()
        from . import lib
        self.lib = lib; self.builtins = lib.builtins(self); self.natives = lib.modules(self)
        self.sources = {}

    # ---- modules
    def module(self, name):
        if name in self.modules: return self.modules[name]
        if not (name == "bcause" or name.startswith("bcause.")):
            return self.natives.get(name) or Opaque(name)
        base = os.path.join(self.repo, *name.split("."))
        path = os.path.join(base, "__init__.py") if os.path.isdir(base) else base + ".py"
        if not os.path.exists(path): raise Unsupported(f"no module {name}")
        m = self.modules[name] = Module(name); m.pkg = os.path.isdir(base)
        m.ns["__name__"] = name
        src = open(path).read(); tree = ast.parse(src); self.sources[name] = path
        env = Env(self.E, m.ns, None, m); m.env = env
        for st in tree.body: self.exec_module_stmt(st, env)
        return m
    def exec_module_stmt(self, st, env):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant): return
        if isinstance(st, ast.If) and "__name__" in ast.unparse(st.test): return
        if isinstance(st, ast.If) and "TYPE_CHECKING" in ast.unparse(st.test): return
        try: self.exec(st, env)
        except (Unsupported, PyRaise, KeyError) as e:
            for n in assigned_names([st]): env.vars[n] = Poison(f"module statement: {e}")
    def resolve(self, v):
        while isinstance(v, LazyRef):
            m = self.module(v.mod)
            if isinstance(m, Module):
                if v.attr in m.ns: v = m.ns[v.attr]
                elif self.is_module(v.mod + "." + v.attr): v = self.module(v.mod + "." + v.attr)
                else: raise PyRaise("ImportError", v.attr)
            else: v = self.getattr(m, v.attr)
        if isinstance(v, Poison): raise Unsupported(v.why)
        return v
    def is_module(self, name):
        base = os.path.join(self.repo, *name.split("."))
        return os.path.isdir(base) or os.path.exists(base + ".py")
    def get_func(self, key):
        mod, qual = key.split(":")
        v = self.module(mod)
        for part in qual.split("."):
            if part == "<locals>": raise Unsupported("local function")
            if isinstance(v, Module): v = self.resolve(v.ns[part]) if part in v.ns else None
            elif isinstance(v, Cls): v = v.ns.get(part)
            if v is None: raise Unsupported(f"{key} not found")
        return v

    # ---- statements
    def exec_block(self, stmts, env):
        for s in stmts: self.exec(s, env)
    def exec(self, s, env):
        getattr(self, "st_" + type(s).__name__, self.st_unknown)(s, env)
    def st_unknown(self, s, env): raise Unsupported(f"statement {type(s).__name__}")
    def st_Pass(self, s, env): pass
    def st_Expr(self, s, env):
        if not isinstance(s.value, ast.Constant): self.ev(s.value, env)
    def st_Return(self, s, env): raise ReturnSig(self.ev(s.value, env) if s.value else None)
    def st_Break(self, s, env): raise BreakSig()
    def st_Continue(self, s, env): raise ContinueSig()
    def st_Global(self, s, env): raise Unsupported("global")
    def st_Nonlocal(self, s, env): env.nonlocals |= set(s.names)
    def st_If(self, s, env): self.exec_block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def st_AnnAssign(self, s, env):
        if s.value: self.assign(s.target, self.ev(s.value, env), env)
    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.Name(t.id, ast.Load()), env)
            if isinstance(old, Lst) and old.kind == "list" and isinstance(s.op, ast.Add): self.lib.list_extend(self, old, self.ev(s.value, env)); return
            if isinstance(old, St) and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                n = self.set_op({ast.BitOr: "|", ast.Sub: "-", ast.BitAnd: "&"}[type(s.op)], old, self.ev(s.value, env)); old.set(n.pred, n.vals); old.sort = sort_or(old.sort, n.sort); return
            env.set(t.id, self.binop(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env); self.setattr(o, t.attr, self.binop(s.op, self.getattr(o, t.attr), self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env); k = self.ev_index(t.slice, env)
            self.setitem(o, k, self.binop(s.op, self.getitem(o, k), self.ev(s.value, env)))
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("starred assignment")
            l = v if isinstance(v, Lst) else Lst(self.E, self.iter_segs(v))
            if not l.concrete:
                raise Unsupported("unpacking of a list of unknown length")
            if len(l.segs) != len(t.elts): raise PyRaise("ValueError", "unpack")
            for x, y in zip(t.elts, l.items): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        else: raise Unsupported("assignment")
    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript): self.lib.delitem(self, self.ev(t.value, env), self.ev_index(t.slice, env))
            else: raise Unsupported("del")
    def st_Raise(self, s, env):
        if s.exc is None: raise Unsupported("re-raise")
        v = self.ev(s.exc, env)
        if isinstance(v, Obj): raise PyRaise(v.cls.name, value=v)
        if isinstance(v, TypeV): raise PyRaise(v.name)
        if isinstance(v, tuple) and v[0] == "exc": raise PyRaise(v[1], v[2])
        raise Unsupported("raise")
    def st_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise PyRaise("AssertionError")
    def st_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if not (isinstance(v, tuple) and v[0] == "ctx"): raise Unsupported("with statement")
            if it.optional_vars is not None: self.assign(it.optional_vars, v[1], env)
        self.exec_block(s.body, env)
    def st_Try(self, s, env):
        try: self.exec_block(s.body, env)
        except PyRaise as e:
            for h in s.handlers:
                names = None
                if h.type is not None:
                    t = self.ev(h.type, env); ts = t.items if isinstance(t, Lst) else [t]
                    names = [x.name for x in ts if isinstance(x, (TypeV, Cls))]
                if names is None or any(self.lib.exc_isa(e.cls, n) for n in names):
                    if h.name: env.set(h.name, ("exc", e.cls, e.msg))
                    self.exec_block(h.body, env); break
            else:
                self.exec_block(s.finalbody, env); raise
        else: self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)
    def st_Import(self, s, env):
        for a in s.names:
            if a.asname: env.set(a.asname, self.modref(a.name))
            else:
                top = a.name.split(".")[0]; env.set(top, self.modref(top))
    def modref(self, name): return LazyMod(name) if name.startswith("bcause") else self.module(name)
    def st_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            parts = env.module.name.split(".")
            if not getattr(env.module, "pkg", False): parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]; mod = ".".join(parts + ([s.module] if s.module else []))
        if mod == "__future__": return
        for a in s.names:
            if a.name == "*":
                m = self.module(mod)
                if isinstance(m, Module):
                    for k, v in m.ns.items():
                        if not k.startswith("_"): env.set(k, v)
                continue
            if mod.startswith("bcause"):
                full = mod + "." + a.name
                if self.is_module(full) and not self.is_attr(mod, a.name): env.set(a.asname or a.name, LazyMod(full))
                else: env.set(a.asname or a.name, LazyRef(mod, a.name))
            else: env.set(a.asname or a.name, self.getattr(self.module(mod), a.name))
    def is_attr(self, mod, name):
        m = self.modules.get(mod)
        return m is not None and name in m.ns
    def st_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            name = ast.unparse(d)
            if name in ("staticmethod", "classmethod", "property"): f.kind = name
            elif name in ("abstractmethod", "abc.abstractmethod", "cache", "functools.cache", "lru_cache"): pass
            elif name.endswith(".setter"): f.kind = "setter"
            else: raise Unsupported(f"decorator {name}")
        env.set(s.name, v)
    def make_func(self, node, env, name):
        a = node.args
        outer = env.func
        qual = (env.qual + "." if getattr(env, "qual", None) else (outer.qual + ".<locals>." if outer else "")) + name
        f = Func(node, env, env.module, qual, getattr(env, "cls", None), [self.ev(d, env) for d in a.defaults],
                 {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        f.isgen = not isinstance(node, ast.Lambda) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for b in node.body for n in own_nodes(b))
        return f
    def st_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            v = self.resolve(self.ev(b, env)); bases.append(v)
        ns = {}
        cenv = Env(self.E, ns, env, env.module); cenv.qual = s.name; cenv.func = None
        c = Cls(s.name, bases, ns, env.module)
        cenv.cls = c
        if any(isinstance(b, TypeV) and b.name == "Enum" for b in bases):
            for st in s.body:
                if isinstance(st, ast.Assign):
                    o = Obj(self.E, c); o.attrs["name"] = st.targets[0].id; ns[st.targets[0].id] = o
            env.set(s.name, c); return
        for st in s.body: 
            if isinstance(st, ast.Expr): continue
            self.exec_module_stmt(st, cenv)
        env.set(s.name, c)

    # ---- loops
    def bind_target(self, t, v, env): self.assign(t, v, env)
    def st_For(self, s, env):
        itv = self.ev(s.iter, env)
        inv = self.find_inv(s, env)
        broke = False
        segs = self.iter_segs(itv)
        if inv is not None and not all(isinstance(g, One) for g in segs):
            inv(self, s, env, itv); return
        for seg in list(segs):
            if isinstance(seg, One):
                self.bind_target(s.target, seg.v, env)
                try: self.exec_block(s.body, env)
                except ContinueSig: pass
                except BreakSig: broke = True; break
            else: self.loop_gen(s, seg, env)
        if not broke: self.exec_block(s.orelse, env)
    def find_inv(self, s, env):
        f = env.func
        if f is None: return None
        return self.loop_inv.get((f.key, self.loop_ordinal(f, s)))
    def loop_ordinal(self, f, s):
        n = 0
        for x in ast.walk(f.node):
            if isinstance(x, (ast.For, ast.While)):
                if x is s: return n
                n += 1
        return -1
    def run_body(self, s, env, v):
        "one run of the loop body; returns its way of ending"
        self.bind_target(s.target, v, env)
        try: self.exec_block(s.body, env)
        except ContinueSig: return "next", None
        except BreakSig: return "break", None
        except ReturnSig as r: return "return", r.v
        return "next", None
    def loop_gen(self, s, seg, env):
        E = self.E
        tnames = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        ass = assigned_names(s.body)
        carried = carried_names(s.body, tnames)
        carried = [k for k in carried if not self.only_container_use(k, s, env)]
        if not E.decide(self.nonempty_f([seg])): return
        if carried: return self.loop_fold(s, seg, env, carried, ass | tnames)
        snap = env.snapshot()
        c = E.fresh("it", seg.base.sort)
        def run(x, lg):
            en = snap.snapshot(); E.logs.append(lg)
            try: r = self.run_body(s, en, seg.elem(x))
            finally: E.logs.remove(lg)
            return r, [(o, e) for o, e in lg.effects if not isinstance(o, Env)], lg.reads
        run = E.later(run)
        def one(x):
            lg = Log(mark); return run(x, lg)
        mark = E.births
        n0 = E.n
        outs = E.explore(lambda: (E.require(seg.has(c)), one(c))[1])
        def pickwitness(cond, what):
            ex = z3.Exists([c], And(seg.has(c), cond))
            self.no_aux(cond, c, n0)
            if E.decide(ex):
                w = E.fresh("w", seg.base.sort); E.lemma(Implies(ex, And(seg.has(w), z3.substitute(cond, (c, w)))))
                return w
            return None
        for o in outs:
            if o.kind == "raise":
                w = pickwitness(o.cond, "raise")
                if w is not None: raise o.val
        normal = []
        for o in outs:
            if o.kind == "raise": continue
            st, eff, reads = o.val
            if st[0] == "break": raise Unsupported("break in a loop over a collection of unknown length")
            if st[0] == "return":
                if not is_conc(st[1]): raise Unsupported("return of a symbolic value from a loop")
                if pickwitness(o.cond, "return") is not None: raise ReturnSig(st[1])
            else: normal.append(o)
        # effects of the remaining iterations
        objs = []
        for o in normal:
            for ob, e in o.val[1]:
                if not any(orig(ob) is x for x in objs): objs.append(orig(ob))
        for ob in objs:
            for o in normal:
                for ro, rk in o.val[2]:
                    if orig(ro) is ob and not (isinstance(rk, S) and z3.eq(rk.t, c) or rk == "own"):
                        raise Unsupported("loop that reads what earlier iterations wrote")
        def effect_on(ob):
            sel = [o for o in normal if any(orig(x) is ob for x, _ in o.val[1])]
            if any(sum(orig(x) is ob for x, _ in o.val[1]) > 1 for o in sel): raise Unsupported("several writes to one object in an iteration")
            g = z3.BoolVal(True) if len(sel) == len(outs) else disj([o.cond for o in sel])
            g = z3.simplify(g); self.no_aux(g, c, n0)
            kinds = {next(e[0] if e else None for x, e in o.val[1] if orig(x) is ob) for o in sel}
            if len(kinds) != 1 or None in kinds: raise Unsupported("effect of a loop")
            kind = kinds.pop()
            def value_at(x, ob=ob):
                nt, nb = E.top, E.births
                lg = Log(mark)
                old = getattr(E, "mute_frame", False); E.mute_frame = True
                try: r, eff, _ = run(x, lg)
                finally: E.undo(nt, nb); E.mute_frame = old
                for o2, e in eff:
                    if orig(o2) is ob: return e
                if E.check(z3.substitute(newg, (c, x))) == z3.unsat: raise PathEnd()
                raise Unsupported("effect of an iteration not found again")
            newg = z3.simplify(And(seg.g if seg.c is c else z3.substitute(seg.g, (seg.c, c)), g))
            if isinstance(ob, Lst) and kind == "append":
                def elem(x): return value_at(x)[1]
                ident = all(isinstance(e[1], S) and z3.eq(e[1].t, c) for o in sel for x, e in o.val[1] if orig(x) is ob)
                ob.set(ob.segs + [Gen(seg.base, c, newg, None if ident else elem)])
            elif isinstance(ob, Dct) and kind == "setitem":
                ks = [e[1] for o in sel for x, e in o.val[1] if orig(x) is ob]
                if not all(isinstance(k, S) and z3.eq(k.t, c) for k in ks):
                    # another key in every round
                    if len({k.t.get_id() if isinstance(k, S) else None for k in ks}) != 1 or not isinstance(ks[0], S) or ks[0].t.sort() != U: raise Unsupported("keys written by a loop")
                    kt = ks[0].t; self.no_aux(kt, c, n0)
                    rb, inv = self.rebase(seg.base, c, newg, lambda x: z3.substitute(kt, (c, x)), "keys written by a loop may repeat"); val = lambda q: value_at(inv(q))[2]; q = E.fresh("q", U)
                    if E.valid(z3.ForAll([q], Implies(rb.mem(q), Not(zb(self.has_key(ob, S(q, "name"))))))) is not True: raise Unsupported("keys written by a loop may be there already")
                    ob.set(ob.segs + [DGen(rb, q, z3.BoolVal(True), val)], ob.ovr); return
                val = lambda q: value_at(q)[2]
                allnew = E.valid(z3.ForAll([c], Implies(And(seg.base.mem(c), newg), Not(zb(self.has_key(ob, S(c)))))))
                if allnew: ob.set(ob.segs + [DGen(seg.base, c, newg, val)], ob.ovr)
                elif E.valid(z3.ForAll([c], Implies(And(seg.base.mem(c), newg), zb(self.has_key(ob, S(c)))))):
                    ob.set(ob.segs, ob.ovr + [(lambda q: z3.simplify(And(seg.base.mem(self.uterm(q)), z3.substitute(newg, (c, self.uterm(q))))), lambda q: val(self.uterm(q)))])
                else:
                    old = ob.snap()
                    ob.set(ob.segs + [DGen(seg.base, c, z3.simplify(And(newg, Not(zb(self.has_key(old, S(c)))))), val)],
                           ob.ovr + [(lambda q: z3.simplify(And(seg.base.mem(self.uterm(q)), z3.substitute(newg, (c, self.uterm(q))), zb(self.has_key(old, q)))), lambda q: val(self.uterm(q)))])
            elif isinstance(ob, St) and kind == "add":
                vs = [e[1] for o in sel for x, e in o.val[1] if orig(x) is ob]
                if not all(isinstance(v, S) and z3.eq(v.t, c) for v in vs): raise Unsupported("elements added by a loop")
                old = St(E, ob.sort, ob.pred, ob.vals, ob.wrap)
                ob.set(lambda x: Or(self.in_set(old, x), And(seg.base.mem(x), z3.substitute(newg, (c, x)))), None)
                ob.sort = seg.base.sort
            elif hasattr(ob, "vc_loop_effect"): ob.vc_loop_effect(self, kind, seg, c, newg, value_at, [e for o in sel for x, e in o.val[1] if orig(x) is ob])
            else: raise Unsupported(f"effect {kind} of a loop on {ob!r}")
        for ob in objs: effect_on(ob)
        for k in (ass | tnames):
            if k in env.vars or True: env.set(k, Poison(f"{k} after a loop"))
    def only_container_use(self, k, s, env):
        return False
    def loop_fold(self, s, seg, env, carried, ass):
        "one carried number: the loop adds (or multiplies) a term that does not depend on it"
        E = self.E
        if len(carried) != 1: raise Unsupported(f"loop with carried variables {carried}")
        k = carried[0]
        init = env.get(k)
        snap = env.snapshot()
        if isinstance(init, TreeVal):
            def bodyt(x, acc):
                en = snap.snapshot(); en.vars[k] = acc
                nt, nb = E.top, E.births; lg = Log(E.births); E.logs.append(lg)
                try: st = self.run_body(s, en, seg.elem(x))
                finally: E.logs.remove(lg)
                if st[0] != "next" or any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("loop that carries a tree")
                return en.vars[k]
            r = self.fold_tree(s, seg, env, k, E.later(bodyt), init)
            for n in ass: env.set(n, Poison(f"{n} after a loop"))
            env.set(k, r); return
        if not (isinstance(init, NUM) or isinstance(init, S) and init.t.sort() in (I, R)): raise Unsupported(f"loop that carries {k}")
        def body(x, acc):
            en = snap.snapshot(); en.vars[k] = S(acc)
            nt, nb = E.top, E.births; lg = Log(E.births); E.logs.append(lg)
            try: st = self.run_body(s, en, seg.elem(x)); v = real(en.vars[k])
            finally: E.logs.remove(lg); E.undo(nt, nb)
            if st[0] != "next": raise Unsupported("early end of a loop that carries a number")
            if any(not isinstance(o, Env) for o, e in lg.effects): raise Unsupported("effects in a loop that carries a number")
            return v
        body = E.later(body); c, a1, a2 = E.fresh("it", seg.base.sort), E.fresh("acc", R), E.fresh("acc", R)
        outs = E.explore(lambda: (E.require(seg.has(c)), body(c, a1), body(c, a2)))
        if any(o.kind == "raise" for o in outs): raise Unsupported("exception in a loop that carries a number")
        if not all(E.valid(Implies(o.cond, o.val[1] - a1 == o.val[2] - a2)) for o in outs): raise Unsupported("loop that carries a number, not a sum")
        acc0 = z3.RealVal(0)
        tot = self.lib.agg(self, "sum", [seg], lambda x: S(E.merge_term(lambda: body(x, acc0))))
        for n in ass: env.set(n, Poison(f"{n} after a loop"))
        env.set(k, S(real(init) + tot))
    def no_aux(self, f, c, n0):
        "the formula may only mention the generic element, not constants introduced for it"
        todo, seen = [f], set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                d = t.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and "!" in d.name() and not z3.eq(t, c):
                    try: n = int(d.name().rsplit("!", 1)[1])
                    except ValueError: n = 0
                    if n > n0: raise Unsupported("condition that needs auxiliary constants")
                todo += t.children()
            elif z3.is_quantifier(t): todo.append(t.body())
    def st_While(self, s, env):
        inv = self.find_inv(s, env)
        if inv is not None: inv(self, s, env, None); return
        for _ in range(40):
            v = self.ev(s.test, env)
            f = self.truth_f(v)
            if not isinstance(f, bool):
                f = z3.simplify(f)
                if z3.is_true(f): f = True
                elif z3.is_false(f): f = False
                else: raise Unsupported("loop without invariant")
            if not f: self.exec_block(s.orelse, env); return
            try: self.exec_block(s.body, env)
            except ContinueSig: continue
            except BreakSig: return
        raise Unsupported("loop without invariant")

    # ---- expressions
    def ev(self, n, env): return getattr(self, "ex_" + type(n).__name__, self.ex_unknown)(n, env)
    def ex_unknown(self, n, env): raise Unsupported(f"expression {type(n).__name__}")
    def ex_Constant(self, n, env): return n.value
    def ex_Name(self, n, env):
        try: v = env.get(n.id)
        except KeyError:
            if n.id in self.builtins: return self.builtins[n.id]
            if hasattr(builtins, n.id): raise Unsupported(f"builtin {n.id}")
            raise PyRaise("NameError", n.id)
        if isinstance(v, LazyRef): v = self.resolve(v)
        if isinstance(v, Poison): raise Unsupported(v.why)
        return v
    def ex_Attribute(self, n, env): return self.getattr(self.ev(n.value, env), n.attr)
    def ex_List(self, n, env): return Lst(self.E, self.display(n.elts, env), "list")
    def ex_Tuple(self, n, env): return Lst(self.E, self.display(n.elts, env), "tuple")
    def ex_Set(self, n, env): return self.to_set(Lst(self.E, self.display(n.elts, env)))
    def display(self, elts, env):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred): segs += self.iter_segs(self.ev(e.value, env))
            else: segs.append(One(self.ev(e, env)))
        return segs
    def ex_Dict(self, n, env):
        d = Dct(self.E)
        for k, v in zip(n.keys, n.values):
            if k is None: self.dict_update(d, self.ev(v, env))
            else: self.dset(d, self.ev(k, env), self.ev(v, env))
        return d
    def ex_Lambda(self, n, env): return self.make_func(n, env, "<lambda>")
    def ex_IfExp(self, n, env): return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)
    def ex_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1: return v
            if self.truth(v) != isand: return v
    def ex_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            f = self.truth_f(v); return (not f) if isinstance(f, bool) else S(z3.simplify(Not(f)))
        if isinstance(n.op, ast.USub):
            if isinstance(v, NUM): return -v
            if isinstance(v, S): return S(-v.t)
            return self.binop(ast.Mult(), -1, v)
        raise Unsupported("unary operator")
    def ex_BinOp(self, n, env): return self.binop(n.op, self.ev(n.left, env), self.ev(n.right, env))
    def binop(self, op, a, b): return self.lib.binop(self, op, a, b)
    def ex_Compare(self, n, env):
        a = self.ev(n.left, env); res = None
        for op, e in zip(n.ops, n.comparators):
            b = self.ev(e, env)
            r = self.compare(op, a, b)
            if len(n.ops) == 1: return r
            if not self.truth(r): return False
            res = r; a = b
        return res
    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if hasattr(a, "vc_eq") or hasattr(b, "vc_eq"):
                if isinstance(op, ast.NotEq): raise Unsupported("elementwise !=")
                return a.vc_eq(self, b) if hasattr(a, "vc_eq") else b.vc_eq(self, a)
            if isinstance(a, Arr1) or isinstance(b, Arr1) or isinstance(a, Tensor): r = self.lib.array_eq(self, a, b)
            else: r = self.eq(a, b)
            if isinstance(r, (Lst, Arr1, Tensor, Opaque)):
                if isinstance(op, ast.NotEq): raise Unsupported("elementwise !=")
                return r
        elif isinstance(op, (ast.In, ast.NotIn)): r = self.contains(b, a)
        elif isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None: r = a is None and b is None
            elif is_conc(a) and is_conc(b): r = a is b or a == b
            else: r = a is b if not (isinstance(a, Obj) and isinstance(b, Obj)) else self.obj_same(a, b)
        else: return self.lib.order(self, op, a, b)
        neg = isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot))
        if isinstance(r, bool): return r != neg
        return S(z3.simplify(Not(r) if neg else r))
    def ex_Subscript(self, n, env): return self.getitem(self.ev(n.value, env), self.ev_index(n.slice, env))
    def ev_index(self, n, env):
        if isinstance(n, ast.Slice): return Slice(*[None if x is None else self.ev(x, env) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple) and any(isinstance(e, ast.Slice) for e in n.elts): return Lst(self.E, [One(self.ev_index(e, env)) for e in n.elts], "tuple")
        return self.ev(n, env)
    def ex_JoinedStr(self, n, env):
        fmt, args = "", []
        for p in n.values:
            if isinstance(p, ast.Constant): fmt += p.value
            else:
                try: v = self.ev(p.value, env)
                except Unsupported: v = Opaque("text")
                if p.format_spec is not None or p.conversion not in (-1, 115): return Opaque("text")
                if isinstance(v, (str, int, float)) : fmt += str(v)
                else: fmt += "{}"; args.append(v)
        if not args: return fmt
        if all(isinstance(a, S) and a.t.sort() in (U,) for a in args):
            return S(self.lib.fmt(self, fmt, [a.t for a in args]), "name")
        return Opaque("text")
    def ex_FormattedValue(self, n, env): raise Unsupported("format")
    def ex_Starred(self, n, env): raise Unsupported("starred expression")
    def ex_NamedExpr(self, n, env):
        v = self.ev(n.value, env); env.set(n.target.id, v); return v
    # comprehensions
    def ex_ListComp(self, n, env): return Lst(self.E, self.comp(n, env, lambda en: self.ev(n.elt, en)), "list")
    def ex_GeneratorExp(self, n, env): return Lst(self.E, self.comp(n, env, lambda en: self.ev(n.elt, en)), "gen")
    def ex_SetComp(self, n, env): return self.to_set(Lst(self.E, self.comp(n, env, lambda en: self.ev(n.elt, en))))
    def ex_DictComp(self, n, env):
        return self.mkdict(Lst(self.E, self.comp(n, env, lambda en: self.tup(self.ev(n.key, en), self.ev(n.value, en)))))
    def comp(self, n, env, elt):
        env = env.snapshot()
        for v in env.vars.values():
            if hasattr(v, "orig"): v.frozen = True
        cenv = Env(self.E, {}, env, env.module, env.func)
        return self.comp_level(n.generators, 0, cenv, elt)
    def comp_level(self, gens, i, env, elt):
        E = self.E
        if i == len(gens): return [One(elt(env))]
        g = gens[i]; out = []
        for seg in list(self.iter_segs(self.ev(g.iter, env))):
            if isinstance(seg, One):
                en = Env(E, dict(env.vars), env.parent, env.module, env.func)
                self.assign(g.target, seg.v, en)
                if all(self.truth(self.ev(c, en)) for c in g.ifs): out += self.comp_level(gens, i + 1, en, elt)
                continue
            if i + 1 < len(gens):
                out += self.comp_nested(gens, i, env, elt, seg); continue
            out.append(self.comp_gen(g, env, elt, seg))
        return [s for s in out if s is not None]
    def comp_nested(self, gens, i, env, elt, seg): raise Unsupported("nested comprehension")
    def comp_gen(self, g, env, elt, seg):
        E = self.E
        c = E.fresh("x_" + seg.base.name.split("!")[0][:12], seg.base.sort); n0 = E.n
        def bind(x):
            en = Env(E, dict(env.vars), env.parent, env.module, env.func)
            self.assign(g.target, seg.elem(x), en); return en
        src = z3.substitute(seg.g, (seg.c, c))
        def cond():
            E.require(seg.has(c))
            en = bind(c)
            for t in g.ifs:
                v = self.ev(t, en)
                if t is g.ifs[-1]: return zb(self.truth_f(v))
                if not self.truth(v): return z3.BoolVal(False)
            return z3.BoolVal(True)
        if g.ifs:
            outs = E.explore(cond)
            for o in outs:
                if o.kind == "raise":
                    cc = z3.simplify(conj(o.conds)); self.no_aux(cc, c, n0)
                    if E.decide(z3.Exists([c], And(seg.has(c), cc))): raise o.val
            extra = z3.simplify(disj([conj(o.conds + [o.val]) for o in outs if o.kind == "ok"])); self.no_aux(extra, c, n0)
            # the condition that the element is in the source is implied where the guard is used
            extra = z3.simplify(z3.substitute(extra, (z3.simplify(seg.has(c)), z3.BoolVal(True))))
        else: extra = z3.BoolVal(True)
        newg = z3.simplify(And(src, extra))
        at = E.later(lambda x: elt(bind(x)))
        outs = E.explore(lambda: (E.require(And(seg.base.mem(c), newg)), at(c))[1])
        for o in outs:
            if o.kind == "raise":
                cc = z3.simplify(conj(o.conds)); self.no_aux(cc, c, n0)
                if E.decide(z3.Exists([c], And(seg.base.mem(c), newg, cc))): raise o.val
        oks = [o for o in outs if o.kind == "ok"]
        if not oks:
            if E.valid(z3.ForAll([c], Not(And(seg.base.mem(c), newg)))): return None
        ident = bool(oks) and all(isinstance(o.val, S) and z3.eq(o.val.t, c) for o in oks) or (seg.base.sort == EDGE and bool(oks) and all(self.is_edge(o.val, c) for o in oks))
        return Gen(seg.base, c, newg, None if ident else at)
    def is_edge(self, v, c):
        return isinstance(v, Lst) and v.concrete and len(v.segs) == 2 and all(isinstance(x, S) for x in v.items) and z3.eq(z3.simplify(v.items[0].t), z3.simplify(EDGE.src(c))) and z3.eq(z3.simplify(v.items[1].t), z3.simplify(EDGE.dst(c)))

    # ---- calls
    def ex_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in env.vars: return self.make_super(n, env)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "logging": return None
        fn = self.ev(n.func, env)
        args, kw, star = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.ev(a.value, env))
                args += [s if isinstance(s, Gen) else s.v for s in segs]
            else: args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Dct) and v.concrete and all(isinstance(s.k, str) for s in v.segs):
                    for s in v.segs: kw[s.k] = s.v
                else: star.append(v)
            else: kw[k.arg] = v
        if star: kw["**"] = star
        return self.call(fn, args, kw, n)
    def make_super(self, n, env):
        if n.args:
            c = self.ev(n.args[0], env); o = self.ev(n.args[1], env)
            if isinstance(c, Cls): return SuperV(c, o)
        e = env
        while e is not None and (e.func is None or e.func.cls is None): e = e.parent
        if e is None: raise Unsupported("super")
        first = e.func.node.args.args[0].arg
        return SuperV(e.func.cls, e.get(first))
    def call(self, fn, args, kw, node=None):
        fn = self.resolve(fn)
        if isinstance(fn, Native): return fn.fn(*args, **({k: v for k, v in kw.items()} if "**" not in kw else self.nostar(kw)))
        if isinstance(fn, Bound):
            if isinstance(fn.fn, Func): return self.call(fn.fn, [fn.self] + args, kw)
            return self.call(fn.fn, [fn.self] + args, kw)
        if isinstance(fn, Func): return self.call_func(fn, args, kw)
        if isinstance(fn, Cls): return self.instantiate(fn, args, kw)
        if isinstance(fn, TypeV): return self.lib.construct(self, fn, args, kw)
        if isinstance(fn, Obj):
            f, _ = fn.cls.lookup("__call__")
            if f: return self.call(Bound(f, fn), args, kw)
        if hasattr(fn, "vc_call"): return fn.vc_call(self, args, kw)
        raise Unsupported(f"call of {fn!r}")
    def nostar(self, kw): raise Unsupported("** with unknown keys")
    def instantiate(self, c, args, kw):
        o = Obj(self.E, c)
        f, owner = c.lookup("__init__")
        if any(isinstance(b, TypeV) and self.lib.is_exc(b.name) for k in c.mro for b in k.bases): return ("exc", c.name, "")
        con = self.contracts.get(f.key) if isinstance(f, Func) else None
        if f is not None: self.call(f, [o] + args, kw)
        return o
    def bind_args(self, fn, args, kw):
        a = fn.node.args; E = self.E
        names = [x.arg for x in a.posonlyargs + a.args]
        vars, rest = {}, []
        pos = list(args)
        for i, v in enumerate(pos):
            if i < len(names) and not isinstance(v, Gen): vars[names[i]] = v
            elif i < len(names): raise Unsupported("* of unknown length for named parameters")
            else: rest.append(v if isinstance(v, Gen) else One(v))
        kw = dict(kw); star = kw.pop("**", [])
        if rest and not a.vararg: raise PyRaise("TypeError", "too many arguments")
        if a.vararg: vars[a.vararg.arg] = Lst(E, rest, "tuple")
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vars: raise PyRaise("TypeError", "multiple values")
                vars[k] = v
            elif a.kwarg: extra[k] = v
            else: raise PyRaise("TypeError", f"unexpected argument {k}")
        if a.kwarg:
            d = Dct(E)
            for k, v in extra.items(): self.dset(d, k, v)
            for o in star: self.dict_update(d, o)
            if star: E.assumptions.add("names of variables do not coincide with parameter names of the functions they are passed to by keyword")
            vars[a.kwarg.arg] = d
        elif star: raise Unsupported("** with unknown keys")
        dn = names[len(names) - len(fn.defaults):] if fn.defaults else []
        for k, v in zip(dn, fn.defaults): vars.setdefault(k, v)
        for k, v in fn.kwdefaults.items(): vars.setdefault(k, v)
        for k in names:
            if k not in vars: raise PyRaise("TypeError", f"missing argument {k}")
        return vars
    def call_func(self, fn, args, kw):
        if fn.kind == "classmethod" : pass
        con = self.contracts.get(fn.key)
        if con is not None and not getattr(con, "inline", False) and not (self.depth == 0 and fn.key == self.verifying):
            vars = self.bind_args(fn, args, kw)
            self.E.used_contracts.add(fn.key)
            return con.use(self, vars)
        if self.depth > 0 and fn.key != self.verifying and "<lambda>" not in fn.key: self.E.inlined.add(fn.key)
        return self.run_func(fn, args, kw)
    def run_func(self, fn, args, kw):
        vars = self.bind_args(fn, args, kw)
        if self.depth > 60: raise Unsupported("call depth")
        if sum(f is fn.node for f in self.callstack) > 3 and not isinstance(fn.node, ast.Lambda): raise Unsupported(f"recursion without contract: {fn.key}")
        env = Env(self.E, vars, fn.env if not hasattr(fn.env, "cls") else fn.env.parent, fn.module, fn)
        if isinstance(fn.node, ast.Lambda): 
            self.depth += 1
            try: return self.ev(fn.node.body, env)
            finally: self.depth -= 1
        if getattr(fn, "isgen", False): return self.run_generator(fn, env)
        self.depth += 1; self.callstack.append(fn.node)
        try: self.exec_block(fn.node.body, env)
        except ReturnSig as r: return r.v
        finally: self.depth -= 1; self.callstack.pop()
        return None
    def run_generator(self, fn, env):
        "a generator function is run to its end; its values are collected (its effects are not interleaved with the caller)"
        out = Lst(self.E, [], "gen"); env.vars["__yield__"] = out
        self.depth += 1
        try: self.exec_block(fn.node.body, env)
        except ReturnSig: pass
        finally: self.depth -= 1
        return out
    def ex_Yield(self, n, env):
        out = env.get("__yield__"); out.set(out.segs + [One(self.ev(n.value, env))], ("append", self.ev(n.value, env))); return None

    # ---- attributes and items
    def getattr(self, o, k):
        o = self.resolve(o)
        if isinstance(o, LazyMod):
            m = self.module(o.name)
            if k in m.ns: return self.resolve(m.ns[k])
            if self.is_module(o.name + "." + k): return LazyMod(o.name + "." + k)
            raise PyRaise("AttributeError", k)
        if isinstance(o, Obj):
            v, owner = o.cls.lookup(k)
            if isinstance(v, Func) and v.kind == "property": return self.call(v, [o], {})
            if k in o.attrs: return o.attrs[k]
            if k == "__class__": return o.cls
            if k == "__dict__": raise Unsupported("__dict__")
            if v is None and hasattr(object, k): raise Unsupported(f"attribute {k}")
            if v is None: raise PyRaise("AttributeError", k)
            return self.bindm(v, o)
        if isinstance(o, Cls):
            if k == "__name__": return o.name
            if k == "mro": raise Unsupported("mro")
            v, owner = o.lookup(k)
            if v is None and hasattr(object, k): raise Unsupported(f"attribute {k}")
            if v is None: raise PyRaise("AttributeError", k)
            if isinstance(v, Func) and v.kind == "classmethod": return Bound(v, o)
            return self.resolve(v) if isinstance(v, LazyRef) else v
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            for c in mro[mro.index(o.cls) + 1:]:
                if k in c.ns:
                    v = c.ns[k]
                    if isinstance(v, Func) and v.kind == "property": return self.call(v, [o.obj], {})
                    return self.bindm(v, o.obj)
            if k == "__init__": return Native("object.__init__", lambda *a, **kw: None)
            raise PyRaise("AttributeError", k)
        return self.lib.attr(self, o, k)
    def bindm(self, v, o):
        if isinstance(v, Func):
            if v.kind == "staticmethod": return v
            if v.kind == "classmethod": return Bound(v, o.cls)
            return Bound(v, o)
        if isinstance(v, LazyRef): return self.resolve(v)
        return v
    def setattr(self, o, k, v):
        if isinstance(o, (Obj,)): o.set(k, v)
        elif isinstance(o, Cls): raise Unsupported("class attribute assignment")
        else: raise Unsupported(f"attribute assignment on {o!r}")
    def getitem(self, o, k): return self.lib.getitem(self, o, k)
    def setitem(self, o, k, v): return self.lib.setitem(self, o, k, v)

class LazyMod:
    def __init__(self, name): self.name = name
class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj
