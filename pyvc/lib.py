"""Models of the Python builtins and library functions that the code uses (assumed contracts on dependencies)."""
import ast, z3, math
from fractions import Fraction
from .core import *
from .values import *
from .ops import *
from .theory import *

EXC = {"Exception": None, "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "TypeError": "Exception",
       "AttributeError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "AssertionError": "Exception", "ImportError": "Exception",
       "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception", "NameError": "Exception", "BaseException": None, "OSError": "Exception", "FileNotFoundError": "OSError", "NetworkXException": "Exception", "NetworkXError": "NetworkXException", "NodeNotFound": "NetworkXException", "NetworkXNoPath": "NetworkXException"}
def is_exc(n): return n in EXC
def exc_isa(c, n):
    while c is not None:
        if c == n or n == "BaseException": return True
        c = EXC.get(c)
    return False

# ---------------------------------------------------------------- helper values
class EqMask:
    "np.array(list) == value"
    def __init__(self, lst, v): self.lst, self.v = lst, v
class Hits:
    "positions of a value in a list"
    def __init__(self, lst, v): self.lst, self.v = lst, v
class FlatT:
    "one-dimensional array or list with the values of a table in row-major order of its axes"
    def __init__(self, t, kind="array"): self.t, self.kind = t, kind
class Stride:
    "position i of a state along the first axis (plus k), times the size of the other axes"
    def __init__(self, pos, k, prod): self.pos, self.k, self.prod = pos, k, prod
class TypeOf:
    "type(x) of a value of unknown type"
    def __init__(self, v): self.v = v

class GraphV:
    "networkx.DiGraph: nodes in order, arcs as a predicate"
    def __init__(self, E, nodes, edge, inp=None, name="g"):
        self.E, self.nodes, self.edge, self.inp, self.birth, self.name = E, nodes, E.later(edge), inp, E.birth(), name
        self.orders = {}
    def set(self, nodes=None, edge=None, effect=None):
        self.E.write(self, ("", "nodes", "edge", "orders"), (self.nodes if nodes is None else nodes, self.edge if edge is None else self.E.later(edge), {}), effect)
    def isnode(self, it, x): return it.member_f(self.nodes, x)
    def copy(self): 
        g = GraphV(self.E, self.nodes, self.edge); g.und = getattr(self, "und", False); g.orders = dict(self.orders); return g
    def arcs(self, it):
        if "arcs" not in self.orders:
            nodes, edge = self.nodes, self.edge
            mem = lambda e: And(edge(EDGE.src(e), EDGE.dst(e)), it.member_f(nodes, EDGE.src(e)), it.member_f(nodes, EDGE.dst(e)))
            self.orders["arcs"] = Base(self.E, "arcs", EDGE, mem, wrap=it.edge_tuple)
        return Lst(self.E, [gen_of(self.E, self.orders["arcs"])], "keys")
    def nbrs(self, it, v, kind):
        key = (kind, self.E.akey(z3.simplify(v)))
        if key not in self.orders:
            nodes, edge = self.nodes, self.edge
            mem = (lambda x: And(edge(x, v), it.member_f(nodes, x))) if kind == "pred" else (lambda x: And(edge(v, x), it.member_f(nodes, x)))
            self.orders[key] = (v, Base(self.E, kind, U, mem, kind="name"))
        return Lst(self.E, [gen_of(self.E, self.orders[key][1])], "gen")
    def vc_iter(self, it): return self.nodes.segs
    def vc_contains(self, it, v): return it.contains(self.nodes, v)
    def vc_len(self, it): return it.length(self.nodes)
    def vc_truth(self, it): return it.truth_f(self.nodes)
    def vc_loop_effect(self, it, kind, seg, c, newg, value_at, effs): raise Unsupported("graph changed in a loop")

def rank_of(it, g, r):
    "r increases along the arcs of g"
    x, y = z3.Consts("rkx rky", U); return z3.ForAll([x, y], Implies(And(g.isnode(it, x), g.isnode(it, y), g.edge(x, y)), r(x) < r(y)))
def add_rank(it, r):
    it._ranks.append(r)
    for c, g in it._cyclic: it.E.lemma(Implies(rank_of(it, g, r), Not(c)))
def cyclic_f(it, g):
    "the graph has a directed cycle: it does not if and only if some numbering of the nodes increases along every arc"
    E = it.E
    for c, h in it._cyclic:
        if h.nodes is g.nodes and h.edge is g.edge: return c
    c = E.fresh("cyclic", B); h = GraphV(E, g.nodes, g.edge); r = E.fresh_fn("rank", U, I)
    E.lemma(Or(c, rank_of(it, h, r)))
    for r2 in it._ranks: E.lemma(Implies(rank_of(it, h, r2), Not(c)))
    it._cyclic.append((c, h)); it._ranks.append(r)
    for c2, h2 in it._cyclic[:-1]: E.lemma(Implies(rank_of(it, h2, r), Not(c2)))
    E.assumptions.add("lemma (not proved here): a finite directed graph has no cycle if and only if some numbering of its nodes increases along every arc")
    return c
def simple_cycles(it, g):
    "the directed cycles of the graph: a list that is empty if and only if the graph has none"
    E = it.E; c = cyclic_f(it, g); f = E.fresh_fn("cycle", U, B); x = z3.Const("cyc", U); w = E.fresh("acycle", U)
    E.lemma(Or(c, z3.ForAll([x], Not(f(x))))); E.lemma(Implies(c, f(w)))
    b = Base(E, "cycles", U, lambda y: f(y)); return Lst(E, [gen_of(E, b, lambda y: Opaque("cycle"))], "gen")

class Callable_:
    def __init__(self, fn): self.vc_call = lambda it, a, k: fn(*a, **k)

# ---------------------------------------------------------------- builtins
def type_name(it, v):
    if isinstance(v, bool): return "bool"
    if isinstance(v, int): return "int"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "str"
    if v is None: return "NoneType"
    if isinstance(v, Lst): return {"list": "list", "tuple": "tuple", "keys": "dict_keys", "values": "dict_values", "items": "dict_items", "gen": "generator"}[v.kind]
    if isinstance(v, Dct): return "OrderedDict" if v.ordered else "dict"
    if isinstance(v, St): return "set"
    if isinstance(v, (Tensor, Arr1, Arr2, RepT)): return "ndarray"
    if isinstance(v, FlatT): return "ndarray" if v.kind == "array" else "list"
    if isinstance(v, GraphV): return "Graph" if getattr(v, "und", False) else "DiGraph"
    if isinstance(v, S):
        if v.t.sort() == R: return "float"
        if v.t.sort() == I: return "int"
        if v.t.sort() == B: return "bool"
        if v.kind == "name": return "str"
        return "state"
    if isinstance(v, (Func, Bound, Native)): return "function"
    return None
SUB = {"OrderedDict": ["dict"], "defaultdict": ["dict"], "bool": ["int"]}
ITER = {"list", "tuple", "dict", "OrderedDict", "set", "ndarray", "str", "dict_keys", "dict_values", "dict_items", "generator"}
def b_isinstance(it, v, t):
    if isinstance(t, Lst): return any_(it, [b_isinstance(it, v, x) for x in t.items])
    t = it.resolve(t)
    if isinstance(v, Obj):
        if isinstance(t, Cls): return t in v.cls.mro
        if isinstance(t, TypeV): return any(isinstance(b, TypeV) and b.name == t.name for c in v.cls.mro for b in c.bases) or t.name == "object"
    if hasattr(v, "vc_cls"): return isinstance(t, Cls) and t in v.vc_cls.mro
    if isinstance(t, Cls): return False
    n = t.name if isinstance(t, TypeV) else None
    if n is None: raise Unsupported(f"isinstance with {t!r}")
    if isinstance(v, TreeVal):
        if n in ("dict", "Iterable", "Mapping") and getattr(v, "as_given", False): return True
        if n in ("dict", "Iterable", "Mapping"): it.open_tree(v.t); v.opened = True; return S(Not(isleaf(v.t)))
        if n in ("OrderedDict", "list", "tuple", "str", "set", "ndarray"): return False
        if n in ("float", "Number"): return S(isleaf(v.t))
        raise Unsupported(f"isinstance of a tree with {n}")
    tn = type_name(it, v)
    if tn is None: raise Unsupported(f"isinstance of {v!r}")
    if tn == "state":
        if n in ("list", "dict", "tuple", "set", "ndarray", "DiGraph", "OrderedDict"): return False
        raise Unsupported("type of a state")
    if n in ("Iterable",): return tn in ITER
    if n == "Graph": return tn in ("DiGraph", "Graph")
    if n == "Hashable": return tn not in ("list", "dict", "set")
    if n == "Callable": return tn == "function"
    if n in ("Number", "Real"): return tn in ("int", "float", "bool")
    return n == tn or n in SUB.get(tn, []) or n == "object"
def any_(it, fs):
    if any(f is True for f in fs): return True
    fs = [f for f in fs if f is not False]
    return S(disj([f.t for f in fs])) if fs else False
def seg_formula(it, s, want, what):
    "formula over the generic element: the element's truth value"
    E = it.E; c = E.fresh("q", s.base.sort); n0 = E.n
    outs = E.explore(lambda: (E.require(s.has(c)), zb(it.truth_f(s.elem(c))))[1])
    for o in outs:
        if o.kind == "raise":
            cc = z3.simplify(conj(o.conds)); it.no_aux(cc, c, n0)
            if E.decide(z3.Exists([c], And(s.has(c), cc))): raise o.val
    f = z3.simplify(disj([conj(o.conds + [o.val]) for o in outs if o.kind == "ok"])); 
    it.no_aux(f, c, n0)
    return c, f
def b_any(it, v):
    out = []
    for s in it.iter_segs(v):
        if isinstance(s, One): out.append(zb(it.truth_f(s.v)))
        else: c, f = seg_formula(it, s, True, "any"); out.append(it.nonempty_f([s]) if z3.is_true(z3.simplify(zb(f))) else z3.Exists([c], And(s.has(c), f)))
    f = z3.simplify(disj(out)); return True if z3.is_true(f) else False if z3.is_false(f) else S(f)
def b_all(it, v):
    out = []
    for s in it.iter_segs(v):
        if isinstance(s, One): out.append(zb(it.truth_f(s.v)))
        else: c, f = seg_formula(it, s, True, "all"); out.append(Not(it.nonempty_f([s])) if z3.is_false(z3.simplify(zb(f))) else z3.ForAll([c], Implies(s.has(c), f)))
    f = z3.simplify(conj(out)); return True if z3.is_true(f) else False if z3.is_false(f) else S(f)
def agg(it, kind, segs, elem):
    "aggregate over one generic segment; elem: term -> python number"
    E = it.E; s = segs[0]
    body = lambda c: E.merge_term(lambda: (E.require(s.has(c)), real(elem(c)))[1])
    return it.agg(kind, s.has, s.base.sort, body)
def elem_agg(it, kind, s):
    E = it.E
    if s.base.sort == ASG: return it.agg_asg(kind, s)
    cache = {}
    def body(c):
        k = c.get_id()
        if k not in cache: cache[k] = (c, body0(c))
        return cache[k][1]
    def body0(c):
        try: return E.merge_term(lambda: (E.require(s.has(c)), real(as_number(it, s.elem(c))))[1])
        except PathEnd: return z3.RealVal(0)
    size = s.base.length if z3.is_true(z3.simplify(s.g)) else None
    ne = E.valid(it.nonempty_f([s])) is True
    r = it.agg(kind, s.has, s.base.sort, body, size, ne)
    return r
def as_number(it, v):
    if isinstance(v, Tensor): return S(it.scalar_of(v))
    if isinstance(v, TreeVal): return S(it.leafnum(v))
    return v
def b_sum(it, v, start=0):
    E = it.E
    segs = it.iter_segs(v)
    if isinstance(start, Lst):      # sum of lists
        out = list(start.segs)
        for s in segs:
            out += it.iter_segs(s.v) if isinstance(s, One) else concat_gen(it, s)
        return Lst(E, out, "list")
    tot, terms = start, []
    if tot == 0 and segs and all(is_one(it, s) for s in segs): return it.length(Lst(E, segs))       # counting
    for s in segs:
        if isinstance(s, One): tot = binop(it, ast.Add(), tot, s.v)
        else:
            # a sum of truth values counts
            r = elem_agg(it, "sum", s); tot = S(real(tot) + r)
    return tot
def concat_gen(it, s):
    "concatenation of the lists of atoms elem(c), c in the segment: the pairs (c, element), in the order of c"
    E = it.E
    if s.base.sort != U: raise Unsupported("concatenation of a list of lists of unknown length")
    wrap = None; memo = {}
    def inner(c):
        k = c.get_id()
        if k not in memo: memo[k] = Lst(E, it.iter_segs(s.elem(c)))
        return memo[k]
    def mem(e):
        def f():
            E.require(s.has(EDGE.src(e))); return it.member_f(inner(EDGE.src(e)), EDGE.dst(e))
        try: m = E.merge_bool(f)
        except PathEnd: m = z3.BoolVal(False)
        return And(s.has(EDGE.src(e)), m)
    c = E.fresh("cc", U)
    def check():
        E.require(s.has(c)); l = inner(c)
        if not it.all_ident(l) or any(isinstance(g, Gen) and g.base.sort != U for g in l.segs): raise Unsupported("concatenation of lists that are not lists of atoms")
        return next((g.base.kind for g in l.segs if isinstance(g, Gen)), None)
    outs = E.explore(check)
    for o in outs:
        if o.kind == "raise": raise Unsupported("concatenation of lists that may fail")
    kind = next((o.val for o in outs if o.val), "name")
    b = Base(E, "concat", EDGE, mem)
    return [gen_of(E, b, lambda e: S(EDGE.dst(e), kind))]
def is_one(it, s):
    if isinstance(s, One): return isinstance(s.v, int) and s.v == 1
    if s.ident: return False
    outs = it.E.explore(lambda: s.elem(it.E.fresh("q", s.base.sort)))
    return all(o.kind == "ok" and isinstance(o.val, int) and o.val == 1 for o in outs)
def bound(it, kind, s, r):
    "the extreme value of a list that is not empty is a bound of the others, and the value of one of them"
    E = it.E
    if s.base.sort != U: return
    c = E.fresh("bc", U)
    try: v = E.merge_term(lambda: (E.require(s.has(c)), real(as_number(it, s.elem(c))))[1])
    except (PathEnd, Unsupported): return
    if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z3.eq(k, c) for k in v.children())): return
    x, w = z3.Const("bx", U), E.fresh("extreme", U); at = lambda y: z3.substitute(v, (c, y))
    E.lemma(z3.ForAll([x], Implies(s.has(x), r >= at(x) if kind == "max" else r <= at(x)), patterns=[at(x)])); E.lemma(And(s.has(w), r == at(w)))
def b_max(it, *a, kind="max", **kw):
    E = it.E
    if kw: raise Unsupported("max with options")
    segs = it.iter_segs(a[0]) if len(a) == 1 else [One(x) for x in a]
    vals = []
    for s in segs:
        if isinstance(s, One): vals.append(real(as_number(it, s.v)))
        elif E.decide(it.nonempty_f([s])):
            vals.append(elem_agg(it, kind, s)); bound(it, kind, s, vals[-1])
    if not vals: raise PyRaise("ValueError", "empty sequence")
    if all(isinstance(s, One) and isinstance(s.v, NUM) for s in segs): return (max if kind == "max" else min)(s.v for s in segs)
    r = vals[0]
    for x in vals[1:]: r = If(x > r, x, r) if kind == "max" else If(x < r, x, r)
    return S(r)
def b_enumerate(it, v, start=0):
    if start != 0: raise Unsupported("enumerate start")
    segs = it.iter_segs(v); l = Lst(it.E, segs)
    if l.concrete: return Lst(it.E, [One(it.tup(i, s.v)) for i, s in enumerate(segs)], "gen")
    if not it.all_ident(l): 
        kl = it.keyseq(l)
        return Lst(it.E, [Gen(s.base, s.c, s.g, lambda x, s=s: it.tup(it.pos(kl, x), s.elem(x))) if isinstance(s, Gen) else (_ for _ in ()).throw(Unsupported("enumerate")) for s in segs], "gen")
    return Lst(it.E, [One(it.tup(it.pos(l, it.uterm(s.v)), s.v)) if isinstance(s, One) else Gen(s.base, s.c, s.g, lambda x, s=s: it.tup(it.pos(l, x), s.base.wrap(x))) for s in segs], "gen")
def b_zip(it, *ls):
    E = it.E
    L = [Lst(E, it.iter_segs(x)) for x in ls]
    if all(l.concrete for l in L): return Lst(E, [One(it.tup(*t)) for t in zip(*[l.items for l in L])], "gen")
    k = L[0]
    if all(len(l.segs) == len(k.segs) for l in L):
        out = []
        for ss in zip(*[l.segs for l in L]):
            if all(isinstance(s, One) for s in ss): out.append(One(it.tup(*[s.v for s in ss])))
            elif all(isinstance(s, Gen) and it.gen_same_src(s, ss[0]) for s in ss):
                s0 = ss[0]; out.append(Gen(s0.base, s0.c, s0.g, lambda x, ss=ss: it.tup(*[s.elem(x) for s in ss])))
            else: break
        else: return Lst(E, out, "gen")
    raise Unsupported("zip of lists of unknown length")
def b_range(it, *a):
    if all(isinstance(x, int) for x in a): return Lst(it.E, [One(i) for i in range(*a)], "gen")
    if len(a) == 2 and a[0] == 0: a = a[1:]
    if len(a) == 1 and isinstance(a[0], AsgCount): return asg_range(it, a[0])
    if it.int_ranges and len(a) <= 2 and isinstance(a[-1], S) and a[-1].t.sort() == I and (len(a) == 1 or isinstance(a[0], int)):
        lo = a[0] if len(a) == 2 else 0; n = a[-1].t; b = Base(it.E, "round number", I, lambda i: And(i >= lo, i < n), lt=lambda x, y: x < y); b.upto = n - lo; return Lst(it.E, [gen_map(it, b, lambda i: S(i))], "gen")
    if len(a) == 1 and isinstance(a[0], S) and a[0].meta and a[0].meta[0] == "len":
        l = a[0].meta[1]; l = it.keys(l) if isinstance(l, Dct) else it.keyseq(l)
        if not it.all_ident(l): raise Unsupported("range")
        return Lst(it.E, [One(it.pos(l, it.uterm(s.v))) if isinstance(s, One) else Gen(s.base, s.c, s.g, lambda x: it.pos(l, x)) for s in l.segs], "gen")
    raise Unsupported("range of unknown length")
def b_map(it, f, l, keep=False):
    "map(f, l), or filter(f, l) if keep: as a generator expression"
    from .interp import Env
    nm = lambda k: ast.Name(k, ast.Load()); apply = ast.Call(func=nm("%f"), args=[nm("%x")], keywords=[]); env = Env(it.E, {"%f": f, "%l": l}, None, None, None)
    g = ast.comprehension(target=ast.Name("%x", ast.Store()), iter=nm("%l"), ifs=([apply] if f is not None else [nm("%x")]) if keep else [], is_async=0)
    return Lst(it.E, it.comp_level([g], 0, env, lambda en: it.ev(nm("%x") if keep else apply, en)), "gen")
def b_next(it, v, *d):
    if isinstance(v, Lst):
        if d and not it.truth(v): return d[0]
        try: return it.first(v)
        except PyRaise: raise PyRaise("StopIteration")
    raise Unsupported("next")
def b_len(it, v):
    if isinstance(v, FlatT): return numel(it, v.t)
    if asg_list(it, v): return AsgCount(v.segs[0].base.axes)
    if isinstance(v, Arr1): return b_len(it, v.lst)
    if isinstance(v, Tensor): raise Unsupported("len of an array")
    return it.length(v)
def b_sorted(it, v, **kw): raise Unsupported("sorted")
def b_type(it, v):
    if isinstance(v, Obj): return v.cls
    n = type_name(it, v)
    if n is None: raise Unsupported(f"type of {v!r}")
    return TypeV(n)
def b_hasattr(it, o, k):
    try: it.getattr(o, k); return True
    except PyRaise as e:
        if e.cls == "AttributeError": return False
        raise
def b_getattr(it, o, k, *d):
    try: return it.getattr(o, k)
    except PyRaise as e:
        if d and e.cls == "AttributeError": return d[0]
        raise
def b_str(it, v=""):
    if isinstance(v, str): return v
    if isinstance(v, (int,)): return str(v)
    if isinstance(v, S) and v.kind == "name": return v
    return Opaque("text")
def b_reversed(it, v):
    l = Lst(it.E, it.iter_segs(v))
    if l.concrete: return Lst(it.E, [One(x) for x in reversed(l.items)], "gen")
    raise Unsupported("reversed")

def builtins(it):
    d = {}
    for n, f in dict(isinstance=b_isinstance, any=b_any, all=b_all, sum=b_sum, max=b_max, enumerate=b_enumerate, zip=b_zip, range=b_range, next=b_next,
                     len=b_len, sorted=b_sorted, hasattr=b_hasattr, getattr=b_getattr, reversed=b_reversed).items():
        d[n] = Native(n, lambda *a, f=f, **k: f(it, *a, **k))
    d["map"] = Native("map", lambda f, l: b_map(it, f, l)); d["filter"] = Native("filter", lambda f, l: b_map(it, f, l, True))
    d["min"] = Native("min", lambda *a, **k: b_max(it, *a, kind="min", **k))
    d["iter"] = Native("iter", lambda v: Lst(it.E, it.iter_segs(v), "gen"))
    d["print"] = Native("print", lambda *a, **k: None)
    d["abs"] = Native("abs", lambda v: abs(v) if isinstance(v, NUM) else S(If(real(v) >= 0, real(v), -real(v))))
    d["callable"] = Native("callable", lambda v: isinstance(v, (Func, Bound, Native, Cls)))
    d["setattr"] = Native("setattr", lambda o, k, v: it.setattr(o, k, v))
    d["id"] = Native("id", lambda o: (_ for _ in ()).throw(Unsupported("id")))
    for t in ("dict", "list", "set", "tuple", "int", "float", "str", "bool", "object", "slice", "frozenset", "type", "bytes", "complex"): d[t] = TypeV(t)
    for e in EXC: d[e] = TypeV(e)
    d["type"] = Native("type", lambda v: b_type(it, v))
    d["staticmethod"] = d["classmethod"] = d["property"] = Native("deco", lambda f: f)
    d["True"], d["False"], d["None"], d["NotImplemented"], d["Ellipsis"] = True, False, None, Opaque("NotImplemented"), Opaque("Ellipsis")
    d["__name__"] = "module"
    return d

def construct(it, t, a, k):
    E, n = it.E, t.name
    if is_exc(n): return ("exc", n, a[0] if a and isinstance(a[0], str) else "")
    if n in ("dict", "OrderedDict"):
        k = dict(k); star = k.pop("**", [])
        d = Dct(E, ordered=(n == "OrderedDict"))
        if a:
            src = a[0]
            if isinstance(src, Dct): d.segs, d.ovr = list(src.segs), list(src.ovr); E.read(src)
            elif isinstance(src, TreeVal): raise Unsupported("dict of a tree")
            else: m = it.mkdict(src); d.segs, d.ovr = m.segs, m.ovr
        for x, v in k.items(): it.dset(d, x, v)
        for o in star: it.dict_update(d, o)
        return d
    if n == "defaultdict": d = Dct(E); d.default = a[0] if a else None; return d
    if n in ("list", "tuple"):
        if not a: return Lst(E, [], n)
        if isinstance(a[0], FlatT): return FlatT(a[0].t, "list")
        return Lst(E, it.iter_segs(a[0]), n)
    if n in ("set", "frozenset"): return it.to_set(a[0]) if a else St(E, None, None, [])
    if n in ("int", "float"):
        if not a: return 0 if n == "int" else 0.0
        v = a[0]
        if isinstance(v, NUM): return int(v) if n == "int" else float(v)
        if isinstance(v, S):
            if v.t.sort() == B: return S(If(v.t, z3.RealVal(1), z3.RealVal(0)))
            if n == "float": return S(real(v))
            if v.t.sort() == I: return v
        if isinstance(v, ProdOf): return v
        if isinstance(v, str): return float(v) if n == "float" else int(v)
        if isinstance(v, Tensor): return S(it.scalar_of(v))
        raise Unsupported(f"{n} of {v!r}")
    if n == "str": return b_str(it, *a)
    if n == "bool": f = it.truth_f(a[0]); return f if isinstance(f, bool) else S(f)
    if n == "slice": return Slice(*([None, None, None] if a == [None] else ([None] + a + [None] * 2)[:3] if len(a) == 1 else (a + [None] * 2)[:3]))
    if n == "object": return Opaque("object")
    if n == "DiGraph": return nx_digraph(it, *a)
    raise Unsupported(f"construction of {n}")

# ---------------------------------------------------------------- operators
def numeric(v): return isinstance(v, NUM) or isinstance(v, S) and v.t.sort() in (I, R, B)
def binop(it, op, a, b):
    E = it.E
    if isinstance(a, NUM) and isinstance(b, NUM):
        try:
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: Fraction(a) / Fraction(b), ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                    ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b}[type(op)]()
        except ZeroDivisionError: raise PyRaise("ZeroDivisionError")
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.BitXor: "xor", ast.BitOr: "or", ast.BitAnd: "and"}.get(type(op))
        if isinstance(a, Obj):
            f, _ = a.cls.lookup(f"__{nm}__")
            if f: return it.call(Bound(f, a), [b], {})
        if isinstance(b, Obj):
            f, _ = b.cls.lookup(f"__r{nm}__")
            if f: return it.call(Bound(f, b), [a], {})
        raise PyRaise("TypeError", "operands")
    if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add): return a + b
    if isinstance(a, str) and isinstance(op, ast.Mod): return Opaque("text")
    if isinstance(op, ast.Add) and (isinstance(a, S) and a.kind == "name" and isinstance(b, str)): return S(fmt(it, "{}" + b, [a.t]), "name")
    if isinstance(op, ast.Add) and (isinstance(b, S) and b.kind == "name" and isinstance(a, str)): return S(fmt(it, a + "{}", [b.t]), "name")
    if isinstance(op, ast.Add) and isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str)): return Opaque("text")
    if isinstance(a, Lst) and isinstance(b, Lst) and isinstance(op, ast.Add):
        if a.kind != b.kind: raise PyRaise("TypeError", "concatenation")
        E.read(a); E.read(b)
        return Lst(E, a.segs + b.segs, a.kind)
    if isinstance(a, Lst) and isinstance(op, ast.Mult): return repeat_list(it, a, b)
    if isinstance(b, Lst) and isinstance(op, ast.Mult): return repeat_list(it, b, a)
    if isinstance(a, (St, Lst)) and isinstance(b, (St, Lst)) and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        if isinstance(a, Lst) and a.kind not in ("keys", "items") and not isinstance(b, Lst) or isinstance(b, Lst) and b.kind not in ("keys", "items") and not isinstance(a, Lst) : 
            if isinstance(b, Lst) and b.kind != "keys" or isinstance(a, Lst) and a.kind != "keys":
                # list | keys works through dict_keys.__ror__
                if not (isinstance(a, Lst) and a.kind == "keys" or isinstance(b, Lst) and b.kind == "keys"): raise PyRaise("TypeError", "set operands")
        if isinstance(op, ast.BitXor): raise Unsupported("symmetric difference")
        return it.set_op({ast.BitOr: "|", ast.BitAnd: "&", ast.Sub: "-"}[type(op)], a, b)
    if isinstance(a, Dct) and isinstance(b, Dct) and isinstance(op, ast.BitOr):
        d = a.snap(); it.dict_update(d, b); return d
    if isinstance(a, TreeVal): a = S(it.leafnum(a))
    if isinstance(b, TreeVal): b = S(it.leafnum(b))
    if isinstance(a, Tensor) or isinstance(b, Tensor): return tensor_op(it, op, a, b)
    if isinstance(a, FlatT) or isinstance(b, FlatT):
        ta, tb = (x.t if isinstance(x, FlatT) else x for x in (a, b))
        if isinstance(a, FlatT) and isinstance(b, FlatT) and not z3.is_true(z3.simplify(it.same_keys_f(it.keys(a.t.axes), it.keys(b.t.axes)))): raise Unsupported("elementwise operation on arrays of unrelated shape")
        return FlatT(tensor_op(it, op, ta, tb))
    if numeric(a) and numeric(b):
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            return S((And if isinstance(op, ast.BitAnd) else Or)(zb(it.truth_f(a)), zb(it.truth_f(b))))
        isint = all(isinstance(x, int) or isinstance(x, S) and x.t.sort() == I for x in (a, b))
        if isint and isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            x, y = it.as_int(a), it.as_int(b)
            if isinstance(op, ast.Add):
                for u, v in ((a, b), (b, a)):
                    if isinstance(u, S) and u.meta and u.meta[0] == "pos" and v == 1: return S(z3.simplify(x + y), meta=("pos+1", u))
            r = S(z3.simplify({ast.Add: x + y, ast.Sub: x - y, ast.Mult: x * y}[type(op)]))
            return r
        return S(num_op(it, op, real(a), real(b)))
    if isinstance(a, Arr1) and isinstance(op, ast.Div) and isinstance(b, S) and b.meta and b.meta[0] == "sum of" and b.meta[1] is a.lst:
        s = asg_list(it, a.lst); return Shares(Lst(E, [Gen(s.base, s.c, s.g, lambda x: S(divf(real(as_number(it, s.elem(x))), b.t)))], "list"), a.lst)
    if isinstance(op, ast.Mult):
        for u, v in ((a, b), (b, a)):
            if isinstance(u, ProdOf) and isinstance(v, S) and v.meta and v.meta[0] in ("pos", "pos+1"): return Stride(v if v.meta[0] == "pos" else v.meta[1], int(v.meta[0] == "pos+1"), u)
    if isinstance(a, ProdOf) or isinstance(b, ProdOf): raise Unsupported("arithmetic on the size of a table")
    raise Unsupported(f"operator {type(op).__name__} on {a!r} and {b!r}")
divf = z3.Function("div", R, R, R)
def num_op(it, op, x, y):
    if isinstance(op, ast.Add): return z3.simplify(x + y)
    if isinstance(op, ast.Sub): return z3.simplify(x - y)
    if isinstance(op, ast.Mult): return x * y
    if isinstance(op, ast.Div):
        # a quotient is only compared with quotients of the same terms; by a number other than 0 it is the product with its inverse
        if z3.is_rational_value(z3.simplify(y)) and not z3.is_true(z3.simplify(y == 0)): return x / y
        return divf(x, y)
    raise Unsupported(f"operator {type(op).__name__}")
def repeat_list(it, l, n):
    E = it.E
    if isinstance(n, int): return Lst(E, l.segs * n, l.kind)
    if isinstance(n, ProdOf) and l.concrete and len(l.segs) == 1:
        axes = axes_of_sizes(it, n.lst); v = l.items[0]
        x = it.tree_const(v) if isinstance(v, TreeVal) else real(as_number(it, v))
        return FlatT(Tensor(E, axes, lambda X, v=x: v), "list")
    if isinstance(n, S) and n.meta and n.meta[0] == "len" and l.concrete and len(l.segs) == 1:
        src = n.meta[1]; src = it.keys(src) if isinstance(src, Dct) else it.keyseq(src)
        if not it.all_ident(src) or not all(isinstance(s, Gen) for s in src.segs): raise Unsupported("repetition of a list")
        v = l.items[0]
        return Lst(E, [Gen(s.base, s.c, s.g, lambda x: v) for s in src.segs], l.kind)
    raise Unsupported("repetition of a list")
def order(it, op, a, b):
    if isinstance(a, NUM) and isinstance(b, NUM):
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
    if numeric(a) and numeric(b):
        if isinstance(b, float) and b in (float("inf"),) : return isinstance(op, (ast.Lt, ast.LtE))
        isint = all(isinstance(x, int) or isinstance(x, S) and x.t.sort() == I for x in (a, b))
        if isinstance(a, S) and a.meta and a.meta[0] == "len" and (type(op), b) in ((ast.Gt, 0), (ast.GtE, 1), (ast.LtE, 0), (ast.Lt, 1)):
            f = it.nonempty_f(a.meta[1].segs); return S(z3.simplify(f if isinstance(op, (ast.Gt, ast.GtE)) else Not(f)))
        if isinstance(b, S) and b.meta and b.meta[0] == "len" and (type(op), a) in ((ast.Lt, 0), (ast.LtE, 1), (ast.GtE, 0), (ast.Gt, 1)):
            f = it.nonempty_f(b.meta[1].segs); return S(z3.simplify(f if isinstance(op, (ast.Lt, ast.LtE)) else Not(f)))
        x, y = (it.as_int(a), it.as_int(b)) if isint else (real(a), real(b))
        return S({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])
    if isinstance(a, (St, Lst)) and isinstance(b, (St, Lst)):
        A, Bs = it.to_set(a), it.to_set(b)
        if isinstance(op, (ast.Gt, ast.GtE)): A, Bs = Bs, A
        return S(subset_f(it, A, Bs)) if isinstance(op, (ast.LtE, ast.GtE)) else S(And(subset_f(it, A, Bs), Not(subset_f(it, Bs, A))))
    raise Unsupported(f"comparison of {a!r} and {b!r}")
def subset_f(it, a, b):
    x = it.E.fresh("e", sort_or(a.sort, b.sort, U))
    if a.vals is not None: return z3.simplify(conj([zb(it.contains(b, v)) for v in a.vals]))
    return z3.ForAll([x], Implies(it.in_set(a, x), it.in_set(b, x)))
def disjoint_f(it, a, b):
    x = it.E.fresh("e", sort_or(a.sort, b.sort, U))
    if a.vals is not None: return z3.simplify(conj([Not(zb(it.contains(b, v))) for v in a.vals]))
    if b.vals is not None: return z3.simplify(conj([Not(zb(it.contains(a, v))) for v in b.vals]))
    return z3.ForAll([x], Not(And(it.in_set(a, x), it.in_set(b, x))))
_fmts = {}
def fmt(it, text, args):
    "a text with atoms in it: different texts or atoms give different names (assumption on names with separators)"
    f = z3.Function("fmt:" + text, *([U] * len(args)), U)
    E = it.E
    if not hasattr(E, "fmts"): E.fmts = {}
    if text not in E.fmts:
        xs = [z3.Const(f"a{i}", U) for i in range(len(args))]; ys = [z3.Const(f"b{i}", U) for i in range(len(args))]
        E.lemma(z3.ForAll(xs + ys, Implies(f(*xs) == f(*ys), And(*[x == y for x, y in zip(xs, ys)])), patterns=[z3.MultiPattern(f(*xs), f(*ys))]))
        for o, h in E.fmts.items():      # texts that end in different characters are different
            if text[-1:] != o[-1:] and "}" not in text[-1:] + o[-1:] and text and o:
                ys = [z3.Const(f"b{i}", U) for i in range(h.arity())]
                E.lemma(z3.ForAll(xs + ys, f(*xs) != h(*ys), patterns=[z3.MultiPattern(f(*xs), h(*ys))]))
        E.fmts[text] = f
        E.assumptions.add("names built by adding a suffix to different names are different")
    return f(*args)
def array_eq(it, a, b):
    if isinstance(b, Arr1) and not isinstance(a, Arr1): a, b = b, a
    if isinstance(a, Arr1) and not isinstance(b, (Arr1, Lst, Tensor)): return Opaque_mask(a.lst, b)
    if isinstance(a, Tensor) and (numeric(b)):
        return S(it.scalar_of(a) == real(b)) if True else None
    if isinstance(b, Tensor) and numeric(a): return S(it.scalar_of(b) == real(a))
    if isinstance(a, TreeVal) or isinstance(b, TreeVal): return it.eq(a, b)
    raise Unsupported("elementwise comparison")
class Opaque_mask(Opaque):
    def __init__(self, lst, v): super().__init__("mask"); self.lst, self.v = lst, v

# ---------------------------------------------------------------- tables
def axes_keys(it, t): return it.keys(t.axes)
def axes_of_sizes(it, lst):
    "axes of a shape given as a list of sizes: each size must be that of the variable it stands for"
    E = it.E; d = Dct(E)
    for s in lst.segs:
        if isinstance(s, One):
            v = s.v
            if isinstance(v, S) and v.meta and v.meta[0] == "len" and getattr(v.meta[1], "statesof", None) is not None:
                lab = v.meta[1].statesof; d.segs.append(DOne(S(lab, "name"), it.states(lab)))
            else: raise Unsupported("shape with an unlabelled axis")
        else:
            if s.base.sort != U: raise Unsupported("shape with unlabelled axes")
            c = E.fresh("ax", U)
            ok = E.explore(lambda: (E.require(s.has(c)), it.as_int(s.elem(c)) == st_size(c))[1])
            for o in ok:
                if o.kind == "raise" or E.valid(Implies(o.cond, o.val)) is not True: raise Unsupported("shape with unlabelled axes")
            d.segs.append(DGen(s.base, s.c, s.g, lambda x: it.states(x)))
    return d
def same_axes(it, A, Bx): return it.same_keys_f(it.keys(A), it.keys(Bx))
def numel(it, t): return ProdOf(shape(it, t))
def shape(it, t):
    segs = []
    for s in t.axes.segs:
        if isinstance(s, DOne): segs.append(One(size_of(it, s.k)))
        else: segs.append(Gen(s.base, s.c, s.g, lambda x: size_of(it, S(x, "name"))))
    return Lst(it.E, segs, "tuple")
def size_of(it, k):
    l = it.states(it.uterm(k)); return S(st_size(it.uterm(k)), meta=("len", l))
def tensor_op(it, op, a, b):
    E = it.E
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        t, sc, left = (a, b, True) if isinstance(a, Tensor) else (b, a, False)
        if not numeric(sc): raise Unsupported(f"array operation with {sc!r}")
        y = real(sc)
        return Tensor(E, t.axes, (lambda X: num_op(it, op, t.val(X), y)) if left else (lambda X: num_op(it, op, y, t.val(X))))
    if len(a.axes.segs) == 0: return Tensor(E, b.axes, lambda X: num_op(it, op, a.val(X), b.val(X)))
    if len(b.axes.segs) == 0: return Tensor(E, a.axes, lambda X: num_op(it, op, a.val(X), b.val(X)))
    if E.valid(same_axes(it, a.axes, b.axes)) is True or E.decide(same_axes(it, a.axes, b.axes)):
        return Tensor(E, a.axes, lambda X: num_op(it, op, a.val(X), b.val(X)))
    # a table without axes is a scalar
    ea, eb = (z3.simplify(Not(it.nonempty_f(x.axes.segs))) for x in (a, b))
    if E.decide(ea): return Tensor(E, b.axes, lambda X: num_op(it, op, a.val(X), b.val(X)))
    if E.decide(eb): return Tensor(E, a.axes, lambda X: num_op(it, op, a.val(X), b.val(X)))
    E.prove(same_axes(it, a.axes, b.axes), "arrays combined elementwise have the same axes in the same order")
    raise PathEnd()
def tensor_reduce(it, kind, t, labels_pred, keepdims=False):
    E = it.E
    P = lambda w: z3.simplify(And(labels_pred(w), it.member_f(it.keys(t.axes), w)))
    d = Dct(E)
    for s in t.axes.segs:
        if isinstance(s, DOne):
            if not E.decide(labels_pred(it.uterm(s.k))): d.segs.append(s)
        else: d.segs.append(DGen(s.base, s.c, z3.simplify(And(s.g, Not(labels_pred(s.c)))), s.val))
    return Tensor(E, d, lambda X: it.agg_vars(kind, P, t.val, X))
def axis_labels(it, t, axis):
    "predicate: labels of the axes listed by position"
    E = it.E
    if axis is None: return lambda w: z3.BoolVal(True)
    l = axis if isinstance(axis, Lst) else it.tup(axis)
    keys = it.keys(t.axes); preds = []
    for s in l.segs:
        if isinstance(s, One): lab = pos_label(it, keys, s.v); preds.append(lambda w, lab=lab: w == lab)
        else:
            c = E.fresh("p", s.base.sort)
            outs = E.explore(lambda: (E.require(s.has(c)), pos_label(it, keys, s.elem(c)))[1])
            if any(o.kind == "raise" for o in outs): raise Unsupported("axis positions")
            if all(z3.eq(o.val, c) for o in outs): preds.append(lambda w, s=s: s.has(w))
            elif all(E.valid(Implies(o.cond, o.val == c)) for o in outs): preds.append(lambda w, s=s: s.has(w))
            else: raise Unsupported("axis positions of other labels")
    return lambda w: z3.simplify(disj([p(w) for p in preds]))
def pos_label(it, keys, v):
    "label at an integer position"
    E = it.E
    if isinstance(v, S) and v.meta and v.meta[0] == "pos":
        l, x = v.meta[1], v.meta[2]
        if E.valid(it.same_keys_f(it.keyseq(l) if not it.all_ident(l) else l, keys)): return x
        raise Unsupported("position in another list")
    if isinstance(v, int):
        segs = keys.segs
        if v >= 0 and all(isinstance(s, One) for s in segs[:v + 1]):
            if v >= len(segs): raise PyRaise("IndexError", "axis")
            return it.uterm(segs[v].v)
        if v == 0: return it.uterm(it.first(keys))
        if v < 0 and all(isinstance(s, One) for s in segs[v:]): return it.uterm(segs[v].v)
    raise Unsupported("axis position")
def tensor_index(it, t, idx):
    E = it.E
    items = idx if isinstance(idx, Lst) else it.tup(idx)
    keys = it.keys(t.axes)
    if not items.segs: return view(it, t, t.axes, t.val)
    if items.concrete and any(isinstance(x, Lst) for x in items.items): raise Unsupported("advanced indexing")
    segs = []; sub = []     # sub: list of (label predicate, state function)
    if len(items.segs) == len(keys.segs) and all(isinstance(a, One) == isinstance(b, One) for a, b in zip(items.segs, keys.segs)):
        pairs = list(zip(items.segs, keys.segs, t.axes.segs))
    else: raise Unsupported("indexing a table by a list of another length")
    for i, k, a in pairs:
        if isinstance(i, One):
            lab = it.uterm(k.v)
            if isinstance(i.v, Slice): segs.append(a); continue
            st = index_state(it, lab, i.v); sub.append((lambda w, lab=lab: w == lab, lambda w, st=st: st))
        else:
            if not it.gen_same_src(i, k):
                if not E.valid(it.same_keys_f(Lst(E, [Gen(i.base, i.c, i.g)]), Lst(E, [k]))): raise Unsupported("indexing a table by an unrelated list")
            c = E.fresh("ix", U); n0 = E.n
            outs = E.explore(lambda: (E.require(k.has(c)), (lambda v: v if isinstance(v, Slice) else index_state(it, c, v))(i.elem(c)))[1])
            for o in outs:
                if o.kind == "raise":
                    it.no_aux(o.cond, c, n0)
                    if E.decide(z3.Exists([c], And(k.has(c), o.cond))): raise o.val
            oks = [o for o in outs if o.kind == "ok"]
            kept = z3.simplify(disj([o.cond for o in oks if isinstance(o.val, Slice)]))
            it.no_aux(kept, c, n0)
            hasc = z3.simplify(k.has(c))
            kept = z3.simplify(z3.substitute(kept, (hasc, z3.BoolVal(True))))
            ixs = [o for o in oks if not isinstance(o.val, Slice)]
            segs.append(DGen(a.base, c, z3.simplify(And(z3.substitute(a.g, (a.c, c)), kept)), a.val))
            if ixs:
                st = ixs[-1].val
                for o in reversed(ixs[:-1]): st = If(o.cond, o.val, st)
                it.no_aux(st, c, n0)
                sub.append((lambda w, kept=kept, c=c, k=k: z3.simplify(And(k.has(w), Not(z3.substitute(kept, (c, w))))), lambda w, st=st, c=c: z3.substitute(st, (c, w))))
    lam = E.lam
    def shift(X):
        for p, f in sub: X = If(p(lam), f(lam), X)
        return X
    return view(it, t, Dct(E, segs), lambda X: t.val(shift(X)))
def view(it, t, axes, val): return Tensor(it.E, axes, val, buf=t.buf, inp=t.inp)
def index_state(it, lab, v):
    "state at an index along the axis of lab"
    if isinstance(v, S) and v.meta and v.meta[0] == "pos":
        l, x = v.meta[1], v.meta[2]
        if it.E.valid(it.same_keys_f(l, it.states(lab))): return x
        raise Unsupported("index taken from another list")
    if isinstance(v, int) and v == 0: return it.uterm(it.first(it.states(lab)))
    raise Unsupported(f"index {v!r}")
def tensor_setitem(it, t, idx, v):
    E = it.E
    sub = tensor_index(it, t, idx)
    if E.decide(it.nonempty_f(sub.axes.segs) if sub.axes.segs else False): raise Unsupported("assignment to a slice")
    y = real(as_number(it, v)); old = t.val
    # the cell: labels fixed by the index
    items = idx if isinstance(idx, Lst) else it.tup(idx); keys = it.keys(t.axes)
    def hit(X):
        out = []
        for i, k in zip(items.segs, keys.segs):
            if isinstance(i, One): out.append(it.lam_at(X, it.uterm(k.v)) == index_state(it, it.uterm(k.v), i.v))
            else:
                c = E.fresh("h", U)
                st = E.merge_term(lambda: (E.require(k.has(c)), index_state(it, c, i.elem(c)))[1])
                out.append(z3.ForAll([c], Implies(k.has(c), it.lam_at(X, c) == st)))
        return conj(out)
    t.mutate(lambda X: If(hit(X), y, old(X)))
def to_tensor(it, v, copy=True):
    E = it.E
    if isinstance(v, Tensor): return Tensor(E, v.axes, v.val, None if copy else v.buf, None if copy else v.inp) 
    if numeric(v): return Tensor(E, Dct(E), lambda X, y=real(v): y)
    if isinstance(v, S) and v.t.sort() == U: return Tensor(E, Dct(E), lambda X, y=v.t: y)
    raise Unsupported(f"array of {v!r}")

# ---------------------------------------------------------------- numpy
def np_array(it, v, dtype=None, **k):
    if isinstance(v, Tensor) and not isinstance(v, Stack): return to_tensor(it, v)
    if isinstance(v, FlatT): return FlatT(Tensor(it.E, v.t.axes, v.t.val), "array")
    if isinstance(v, Lst): 
        if v.concrete and len(v.segs) == 2 and all(isinstance(x, Tensor) for x in v.items): return stack(it, v.items)
        return rows(it, v.snap()) or Arr1(v.snap())
    if isinstance(v, Stack): return Stack(it.E, [to_tensor(it, t) for t in v.parts])
    if isinstance(v, Arr2): return Arr2(v.lst)
    if isinstance(v, Arr1): return Arr1(v.lst)
    if isinstance(v, TreeVal): return Tensor(it.E, Dct(it.E), lambda X, y=it.leafnum(v): y)
    if numeric(v): return to_tensor(it, v)
    raise Unsupported(f"array of {v!r}")
def np_asarray(it, v, dtype=None, **k):
    if dtype is not None or k: raise Unsupported("asarray with options")
    if isinstance(v, (Tensor, Arr1)) or isinstance(v, FlatT) and v.kind == "array": return v
    return np_array(it, v)
class Stack(Tensor):
    "array of two arrays: a new axis in front of theirs, without a label until a domain is given for it"
    def __init__(self, E, parts): self.parts = parts; Tensor.__init__(self, E, Dct(E), None)
    @property
    def axes(self): raise Unsupported("stacked arrays without a domain")
    @axes.setter
    def axes(self, v): pass
def stack(it, ts):
    E = it.E
    if E.valid(same_axes(it, ts[0].axes, ts[1].axes)) is not True: raise Unsupported("stacking arrays of other shapes")
    return Stack(E, [to_tensor(it, t) for t in ts])
def unstack(it, st, lab, states):
    "the stacked arrays as one array, its first axis labelled with the name lab; states: the two literal states of lab"
    E = it.E; a, b = st.parts; s0, s1 = (it.uterm(x) for x in states); x = z3.Const("bs", U)
    E.fact(And(st_size(lab) == 2, st_in(lab, s0), st_in(lab, s1), s0 != s1, st_lt(lab, s0, s1), z3.ForAll([x], Implies(st_in(lab, x), Or(x == s0, x == s1)), patterns=[st_in(lab, x)])))
    if E.valid(Not(it.member_f(it.keys(a.axes), lab))) is not True: raise Unsupported("axis label that is in use")
    return Tensor(E, Dct(E, [DOne(S(lab, "name"), it.states(lab))] + list(a.axes.segs)), lambda X: If(it.lam_at(X, lab) == s0, a.val(X), b.val(X)))
def rows(it, l):
    "a list of lists of numbers, one list per element of an unknown base; None if it is not one"
    E = it.E
    if len(l.segs) != 1 or not isinstance(l.segs[0], Gen) or l.segs[0].base.sort != ASG: return None
    s = l.segs[0]; c = E.fresh("row", s.base.sort)
    outs = [o.val for o in E.explore(lambda: (E.require(s.has(c)), s.elem(c))[1]) if o.kind == "ok"]
    if not outs or not all(isinstance(v, Lst) for v in outs): return None
    for v in outs:
        if len(v.segs) != len(outs[0].segs) or any(type(x) is not type(y) or isinstance(x, Gen) and not (x.base is y.base and z3.eq(z3.simplify(x.guard(y.c)), z3.simplify(y.g)) and not contains(y.g, c)) for x, y in zip(v.segs, outs[0].segs)):
            raise Unsupported("rows of other lengths")
    return Arr2(l)
def contains(t, c):
    seen, todo = set(), [t]
    while todo:
        t = todo.pop()
        if z3.eq(t, c): return True
        if t.get_id() in seen: continue
        seen.add(t.get_id()); todo += t.children()
    return False
def plain_int(n):
    if not isinstance(n, int): raise Unsupported("dimensions of a list")
    return n
def np_ndim(it, v):
    if isinstance(v, Tensor):
        n = it.length(it.keys(v.axes)); return n
    if isinstance(v, TreeVal):
        if it.E.decide(isleaf(v.t)): return 0
        return 0
    if isinstance(v, Dct): return 0
    if numeric(v) or isinstance(v, (str,)) or isinstance(v, S) : return 0
    if isinstance(v, (FlatT, Arr1)): return 1
    if isinstance(v, Lst):
        if not v.concrete:
            g = [s for s in v.segs if isinstance(s, Gen)][0]; c = it.E.fresh("c", g.base.sort)
            outs = it.E.explore(lambda: (it.E.require(g.has(c)), np_ndim(it, g.elem(c)))[1])
            if any(o.kind == "raise" or o.val != 0 for o in outs): raise Unsupported("dimensions of a list")
            return 1
        return 1 + (max(0 if isinstance(x, Tensor) and not isinstance(x, Stack) and it.E.valid(Not(it.nonempty_f(x.axes.segs))) is True else plain_int(np_ndim(it, x)) for x in v.items) if v.items else 0)
    raise Unsupported(f"ndim of {v!r}")
def np_shape(it, v):
    if isinstance(v, Tensor): return shape(it, v)
    if isinstance(v, (FlatT,)): return it.tup(numel(it, v.t))
    if isinstance(v, (Lst, Arr1)) and np_ndim(it, v) == 1: return it.tup(it.length(v if isinstance(v, Lst) else v.lst))
    if numeric(v): return it.tup()
    raise Unsupported(f"shape of {v!r}")
def np_reshape(it, v, shp, **k):
    E = it.E
    if k: raise Unsupported("reshape options")
    if not isinstance(shp, Lst): shp = it.tup(shp)
    shp = Lst(E, shp.segs, "tuple")
    if isinstance(v, Lst) and v.concrete and len(v.items) == 1 and E.valid(Not(it.nonempty_f(shp.segs))) is True: return to_tensor(it, as_number(it, v.items[0]))
    if isinstance(v, RepT):
        t = v.t; n = len(t.axes.segs)
        head, tail = Lst(E, shp.segs[:n], "tuple"), Lst(E, shp.segs[n:], "tuple")
        if E.valid(zb(it.seq_eq(head, shape(it, t)))) and E.valid(zb(it.seq_eq(Lst(E, tail.segs, "tuple"), Lst(E, v.sizes.segs, "tuple")))):
            ax = axes_of_sizes(it, tail)
            d = Dct(E, list(t.axes.segs) + ax.segs)
            return Tensor(E, d, t.val)
        return scrambled(it, shp)
    if isinstance(v, Lst) or isinstance(v, Arr1):
        l = v.lst if isinstance(v, Arr1) else v
        return list_to_tensor(it, l, shp)
    t = v.t if isinstance(v, FlatT) else v if isinstance(v, Tensor) else None
    if t is None: raise Unsupported(f"reshape of {v!r}")
    ax = axes_of_sizes(it, shp)
    if E.decide(same_axes(it, ax, t.axes)): return Tensor(E, t.axes, t.val, t.buf if isinstance(v, Tensor) else None, t.inp if isinstance(v, Tensor) else None)
    return scrambled(it, shp)
def scrambled(it, shp):
    "a table of the shape whose values are not related to the labels of the axes"
    ax = axes_of_sizes(it, shp); k = it.keys(ax); sym = ("scr", it.E.birth())
    return Tensor(it.E, ax, lambda X: it.app(sym, [], X, lambda w: it.member_f(k, w)))
def list_to_tensor(it, l, shp):
    E = it.E
    if len(l.segs) == 1 and isinstance(l.segs[0], Gen):
        s = l.segs[0]
        if s.base.sort == ASG:
            ax = axes_of_sizes(it, shp)
            if not E.decide(same_axes(it, ax, s.base.axes)): return scrambled(it, shp)
            return Tensor(E, ax, it.asg_elem(s, ax))
        if hasattr(s.base, "var") and z3.is_true(z3.simplify(s.g)) and len(shp.segs) == 1:
            ax = axes_of_sizes(it, shp); k = it.keys(ax)
            lab = s.base.var
            if isinstance(k.segs[0], Gen):
                if E.valid(it.same_keys_f(k, it.tup(S(lab, "name")))) is not True: raise Unsupported("list reshaped to another axis")
                ax = Dct(E, [DOne(S(lab, "name"), it.states(lab))])
            elif E.valid(it.uterm(k.items[0]) == lab) is not True: raise Unsupported("list reshaped to another axis")
            return Tensor(E, ax, lambda X: E.merge_term(lambda: real(as_number(it, s.elem(it.lam_at(X, lab))))))
    raise Unsupported("array from a list")
def np_repeat(it, v, n, axis=None):
    if axis is not None: raise Unsupported("repeat with axis")
    if isinstance(n, ProdOf): return RepT(to_tensor(it, v), n.lst)
    raise Unsupported("repeat")
def np_prod(it, v, axis=None):
    if isinstance(v, Arr1): v = v.lst
    if isinstance(v, Lst) and axis is None:
        if v.concrete and all(isinstance(x, NUM) for x in v.items): return math.prod(v.items)
        return ProdOf(Lst(it.E, v.segs, "tuple"))
    raise Unsupported("prod")
def np_reduce(it, kind):
    def f(v, axis=None, keepdims=False, **k):
        if isinstance(v, Lst):
            if axis is not None: raise Unsupported("reduction of a list along an axis")
            return b_sum(it, v) if kind == "sum" else b_max(it, v, kind=kind)
        if isinstance(v, FlatT): v = v.t
        if not isinstance(v, Tensor): raise Unsupported("reduction")
        if keepdims is not False: raise Unsupported("keepdims")
        if isinstance(axis, Lst) and axis.kind == "list": raise PyRaise("TypeError", "axis list")
        r = tensor_reduce(it, kind, v, axis_labels(it, v, axis))
        if axis is None: return S(r.val(it.E.lam if False else z3.Const("lam0", U)))
        return r
    return f
def np_argmax(it, t, axis=None):
    "position, along one axis, of a state of largest value (the first such one)"
    E = it.E
    if not isinstance(t, Tensor) or axis is None or isinstance(axis, Lst): raise Unsupported("argmax")
    lab = pos_label(it, it.keys(t.axes), axis); memo = []
    d = Dct(E, [s for s in t.axes.segs if not (isinstance(s, DOne) and E.valid(it.uterm(s.k) == lab) is True)])
    if any(isinstance(s, DOne) and E.valid(it.uterm(s.k) != lab) is not True for s in d.segs): raise Unsupported("argmax along an unknown axis")
    d.segs = [s if isinstance(s, DOne) else DGen(s.base, s.c, z3.simplify(And(s.g, s.c != lab)), s.val) for s in d.segs]
    def val(X):
        X = z3.simplify(X)
        for Y, m in memo:
            if z3.eq(X, Y): break
        else:
            m = E.fresh("argmax", U); memo.append((X, m)); E.lemma(st_in(lab, m)); body = lambda s: t.val(If(E.lam == lab, s, X)); it.argmaxes.append((lab, X, m, body))
        return it.pos(it.states(lab), m).t
    return Tensor(E, d, val)
def np_moveaxis(it, v, src, dst):
    E = it.E; t = v
    if not isinstance(t, Tensor): raise Unsupported("moveaxis")
    src, dst = (x if isinstance(x, Lst) else it.tup(x) for x in (src, dst))
    keys = it.keys(t.axes)
    # both lists run over the axes in their order; axis x goes to its position in a permutation of the labels
    if len(src.segs) == len(dst.segs) == len(keys.segs) and all(isinstance(a, Gen) and isinstance(b, Gen) and isinstance(k, Gen) for a, b, k in zip(src.segs, dst.segs, keys.segs)):
        perm = None
        for a, b, k in zip(src.segs, dst.segs, keys.segs):
            if not (it.gen_same_src(a, k) or E.valid(it.same_keys_f(it.keyseq(Lst(E, [a])), Lst(E, [k])))) or not (it.gen_same_src(b, k) or E.valid(it.same_keys_f(it.keyseq(Lst(E, [b])), Lst(E, [k])))): raise Unsupported("moveaxis of unrelated lists")
            c = E.fresh("mv", U)
            o1 = E.explore(lambda: (E.require(k.has(c)), pos_label(it, keys, a.elem(c)))[1])
            if any(o.kind == "raise" or E.valid(Implies(o.cond, o.val == c)) is not True for o in o1): raise Unsupported("moveaxis source")
            o2 = E.explore(lambda: (E.require(k.has(c)), b.elem(c))[1])
            for o in o2:
                if o.kind == "raise": raise Unsupported("moveaxis destination")
                m = o.val.meta if isinstance(o.val, S) else None
                if not m or m[0] != "pos" or E.valid(Implies(o.cond, m[2] == c)) is not True: raise Unsupported("moveaxis destination")
                if perm is None: perm = m[1]
                elif perm is not m[1] and not E.valid(it.same_keys_f(perm, m[1])): raise Unsupported("moveaxis destination")
        return permuted(it, t, perm)
    raise Unsupported("moveaxis")
def permuted(it, t, perm):
    E = it.E; keys = it.keys(t.axes); x = E.fresh("k", U)
    if not it.all_ident(perm): raise Unsupported("permutation")
    if E.valid(z3.ForAll([x], it.member_f(perm, x) == it.member_f(keys, x))) is not True: raise Unsupported("not a permutation of the axes")
    d = Dct(E, [DOne(s.v, it.states(it.uterm(s.v))) if isinstance(s, One) else DGen(s.base, s.c, s.g, lambda y: it.states(y)) for s in perm.segs])
    return view(it, t, d, t.val)
def np_transpose(it, v, axes=None):
    E = it.E; keys = it.keys(v.axes)
    if axes is None or not isinstance(axes, Lst): raise Unsupported("transpose")
    segs = []
    for s in axes.segs:
        if isinstance(s, One): segs.append(One(S(pos_label(it, keys, s.v), "name")))
        else:
            c = E.fresh("tr", s.base.sort)
            outs = E.explore(lambda: (E.require(s.has(c)), pos_label(it, keys, s.elem(c)))[1])
            if any(o.kind == "raise" or E.valid(Implies(o.cond, o.val == c)) is not True for o in outs): raise Unsupported("transpose")
            segs.append(Gen(s.base, s.c, s.g))
    return permuted(it, v, Lst(E, segs))
def np_where(it, m, *a):
    if a: raise Unsupported("where")
    if isinstance(m, Opaque_mask): return it.tup(Hits(m.lst, m.v))
    raise Unsupported("where")
def np_isscalar(it, v):
    if isinstance(v, TreeVal):
        return S(isleaf(v.t))
    if isinstance(v, S) and v.kind in it.atoms: return False
    if numeric(v) or isinstance(v, str) or isinstance(v, S): return True
    return False
def np_ravel(it, v, *a, **k):
    if a or k: raise Unsupported("ravel options")
    if isinstance(v, Tensor): return FlatT(Tensor(it.E, v.axes, v.val))
    if isinstance(v, FlatT): return FlatT(v.t)
    if isinstance(v, (Lst, Arr1)):
        if isinstance(v, Lst) and not v.concrete and it.E.valid(it.as_int(it.length(v)) == 1) is True:
            x = it.first(v)
            if isinstance(x, Lst): return Arr1(x)
        if np_ndim(it, v) == 1: return Arr1(v if isinstance(v, Lst) else v.lst)
    if numeric(v): return Arr1(Lst(it.E, [One(v)]))
    raise Unsupported("ravel")
def np_zeros(it, shp, val=0):
    if isinstance(shp, Lst): ax = axes_of_sizes(it, Lst(it.E, shp.segs, "tuple")); return Tensor(it.E, ax, lambda X: z3.RealVal(val))
    if isinstance(shp, ProdOf): ax = axes_of_sizes(it, shp.lst); return FlatT(Tensor(it.E, ax, lambda X: z3.RealVal(val)))
    raise Unsupported("zeros")
nanf = z3.Function("nan_to_num", R, R, R)
def np_nan_to_num(it, v):
    # a table of quotients: the value is kept where the quotient is defined
    if isinstance(v, Tensor):
        return Tensor(it.E, v.axes, v.val, None)
    return v
def np_atleast_1d(it, v):
    if isinstance(v, Tensor):
        if it.E.decide(it.nonempty_f(v.axes.segs) if v.axes.segs else False): return v
        return Arr1(Lst(it.E, [One(S(it.scalar_of(v)))]))
    if numeric(v) or isinstance(v, S): return Arr1(Lst(it.E, [One(v)]))
    raise Unsupported("atleast_1d")
def np_copy(it, t): return Tensor(it.E, t.axes, t.val)

# ---------------------------------------------------------------- networkx
def nx_digraph(it, arcs=None):
    E = it.E
    if isinstance(arcs, GraphV): return arcs.copy()
    if not isinstance(arcs, (Lst, St)): raise Unsupported("graph from a list of arcs")
    L = Lst(E, it.iter_segs(arcs)); edge = lambda x, y: z3.simplify(edge_in(it, L, x, y)); end = endpoints(it, edge)
    return GraphV(E, Lst(E, [gen_of(E, Base(E, "endpoints", U, lambda x: end(x), kind="name"))], "keys"), edge)
def endpoints(it, edge):
    "the nodes of a set of arcs"
    E = it.E; end, wit, out = E.fresh_fn("endpoint", U, B), E.fresh_fn("other_end", U, U), E.fresh_fn("arc_leaves", U, B); x, y = z3.Consts("nx ny", U); e = edge(x, y)
    heads = [t for t in calls_in(e) if any(z3.eq(c, x) for c in t.children()) and any(z3.eq(c, y) for c in t.children())]
    E.lemma(z3.ForAll([x, y], Implies(e, And(end(x), end(y))), **(dict(patterns=[heads[0]]) if heads else {})))
    E.lemma(z3.ForAll([x], Implies(end(x), If(out(x), edge(x, wit(x)), edge(wit(x), x))), patterns=[end(x)])); return end
def calls_in(t):
    todo, out = [t], []
    while todo:
        t = todo.pop()
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args(): out.append(t)
            todo += t.children()
    return out
def component(it, g, v):
    "the nodes joined with a node of an undirected graph"
    E = it.E; x = it.uterm(v)
    if not isinstance(g, GraphV) or not getattr(g, "und", False): raise Unsupported("component of a directed graph")
    if not E.decide(g.isnode(it, x)): raise PyRaise("KeyError", "node not in graph")
    h = g.copy(); return St(E, U, lambda y: And(h.isnode(it, y), joined_f(it, h, x, y)), None, kind="name")
def components(it, g):
    "the components of an undirected graph: one set for the first node of each"
    E = it.E
    if not isinstance(g, GraphV) or not getattr(g, "und", False): raise Unsupported("components of a directed graph")
    h = g.copy(); first = E.fresh_fn("first_of_component", U, U); x, y = z3.Consts("kx ky", U); E.lemma(z3.ForAll([x], Implies(h.isnode(it, x), And(h.isnode(it, first(x)), first(first(x)) == first(x), joined_f(it, h, first(x), x))), patterns=[first(x)]))
    b = Base(E, "components", U, lambda c: And(h.isnode(it, c), first(c) == c))
    return Lst(E, [Gen(b, E.fresh("x", U), z3.BoolVal(True), lambda c: St(E, U, lambda y: And(h.isnode(it, y), joined_f(it, h, c, y)), None, kind="name"))], "gen")
def graph_attr(it, g, k):
    E = it.E
    if k == "nodes": return Lst(E, g.nodes.segs, "keys")
    if k == "edges": return g.arcs(it)
    if k in ("predecessors", "successors"):
        def f(v):
            x = it.uterm(v)
            if not E.decide(g.isnode(it, x)): raise PyRaise("NetworkXError", "node not in graph")
            return g.nbrs(it, x, "pred" if k == "predecessors" else "succ")
        return Native(k, f)
    if k == "copy": return Native("copy", lambda **kw: g.copy())
    if k == "remove_edges_from":
        def f(l):
            segs = it.iter_segs(l); L = Lst(E, segs); old = g.edge
            g.set(edge=lambda x, y: z3.simplify(And(old(x, y), Not(edge_in(it, L, x, y)))))
        return Native(k, f)
    if k == "remove_edge":
        def f(a, b):
            old = g.edge; x0, y0 = it.uterm(a), it.uterm(b)
            if not E.decide(old(x0, y0)): raise PyRaise("NetworkXError")
            g.set(edge=lambda x, y: And(old(x, y), Not(And(x == x0, y == y0))))
        return Native(k, f)
    if k == "add_edge":
        if getattr(it, "on_add", None) is None: raise Unsupported("add_edge")
        return Native(k, lambda a, b: it.on_add(g, it.uterm(a), it.uterm(b)))
    if k == "remove_nodes_from":
        def f(l):
            L = it.to_set(l); old, oe = g.nodes, g.edge
            g.set(nodes=filter_nodes(it, old, lambda x: Not(it.in_set(L, x))))
        return Native(k, f)
    if k == "subgraph":
        def f(l):
            L = it.to_set(l); r = GraphV(E, filter_nodes(it, g.nodes, lambda x: it.in_set(L, x)), g.edge); return r
        return Native(k, f)
    if k == "edge_subgraph":
        def f(l):
            L = Lst(E, it.iter_segs(l)); old, nodes = g.edge, g.nodes
            edge = lambda x, y: z3.simplify(And(edge_in(it, L, x, y), old(x, y), it.member_f(nodes, x), it.member_f(nodes, y))); end = endpoints(it, edge)
            return GraphV(E, filter_nodes(it, nodes, lambda x: end(x)), edge)
        return Native(k, f)
    if k == "to_undirected":
        def f():
            if getattr(g, "und", False): return g.copy()
            e = g.edge; r = GraphV(E, g.nodes, lambda x, y: Or(e(x, y), e(y, x))); r.und = True; return r
        return Native(k, f)
    if k == "adj" or k == "in_degree": raise Unsupported(f"graph attribute {k}")
    if k == "has_edge": return Native(k, lambda a, b: S(And(g.edge(it.uterm(a), it.uterm(b)), g.isnode(it, it.uterm(a)), g.isnode(it, it.uterm(b)))))
    if k == "has_node": return Native(k, lambda a: S(g.isnode(it, it.uterm(a))))
    raise Unsupported(f"graph attribute {k}")
def d_separated(it, g, x, y, z):
    "networkx.d_separated: a predicate of the graph and the three sets (its own meaning is not specified here)"
    E = it.E; sets = [it.to_set(v) for v in (x, y, z)]
    bad = disj([E.merge_bool(lambda st=st: zb(it.truth_f(it.set_op("-", st, it.to_set(g.nodes))))) for st in sets])
    if E.decide(bad): raise PyRaise("NodeNotFound", "node not in graph")
    return S(dsep_f(it, g, *sets))
def as_array(it, sort, f):
    c = z3.Const("el:" + sort.name(), sort); return z3.simplify(z3.Lambda([c], f(c)))
SETU, SETE = z3.ArraySort(U, B), z3.ArraySort(EDGE, B)
dsep_fn = z3.Function("d_separated", SETU, SETE, SETU, SETU, SETU, B)
def dsep_f(it, g, x, y, z):
    return dsep_fn(as_array(it, U, lambda c: g.isnode(it, c)), as_array(it, EDGE, lambda e: And(g.isnode(it, EDGE.src(e)), g.isnode(it, EDGE.dst(e)), g.edge(EDGE.src(e), EDGE.dst(e)))),
                   *[as_array(it, U, lambda c, st=st: it.in_set(st, c)) for st in (x, y, z)])
conn_fn = z3.Function("connectivity", SETU, SETE, U, U, I)
joined_fn = z3.Function("joined", SETU, SETE, U, U, B)
def joined_f(it, g, x, y):
    "two nodes are joined by a path, whatever the direction of the arcs"
    f = joined_fn(as_array(it, U, lambda c: g.isnode(it, c)), as_array(it, EDGE, lambda e: And(g.isnode(it, EDGE.src(e)), g.isnode(it, EDGE.dst(e)), Or(g.edge(EDGE.src(e), EDGE.dst(e)), g.edge(EDGE.dst(e), EDGE.src(e))))), x, y)
    return f
def connectivity(it, g, x, y):
    E = it.E; x, y = it.uterm(x), it.uterm(y)
    for v in (x, y):
        if not E.decide(g.isnode(it, v)): raise PyRaise("NetworkXError", "node not in graph")
    if not getattr(g, "und", False): raise Unsupported("connectivity of a directed graph")
    if E.valid(x != y) is not True: raise Unsupported("connectivity of a node with itself")
    j = joined_f(it, g, x, y); k = conn_fn(j.arg(0), j.arg(1), x, y)
    return S(If(j, 1 + If(k >= 0, k, -k), 0))
def has_path(it, g, x, y):
    E = it.E; x, y = it.uterm(x), it.uterm(y)
    for v in (x, y):
        if not E.decide(g.isnode(it, v)): raise PyRaise("NodeNotFound", "node not in graph")
    if not getattr(g, "und", False): raise Unsupported("path in a directed graph")
    return S(Or(x == y, joined_f(it, g, x, y)))
def graph_same_f(it, g, h):
    if g.nodes is h.nodes and g.edge is h.edge: return z3.BoolVal(True)
    x, y = it.E.fresh("x", U), it.E.fresh("y", U)
    return z3.ForAll([x, y], And(g.isnode(it, x) == h.isnode(it, x), Implies(And(g.isnode(it, x), g.isnode(it, y)), g.edge(x, y) == h.edge(x, y))))
def filter_nodes(it, nodes, keep):
    segs = []
    for s in nodes.segs:
        if isinstance(s, One):
            if it.E.decide(keep(it.uterm(s.v))): segs.append(s)
        else: segs.append(Gen(s.base, s.c, z3.simplify(And(s.g, keep(s.c)))))
    return Lst(it.E, segs, "keys")
def edge_in(it, L, x, y):
    out = []
    for s in L.segs:
        if isinstance(s, One):
            a, b = it.unpack(s.v, 2); out.append(And(it.uterm(a) == x, it.uterm(b) == y))
        elif s.ident and s.base.sort == EDGE: out.append(s.has(EDGE.mk(x, y)))
        else:
            c = it.E.fresh("e", s.base.sort); n0 = it.E.n
            f = it.E.merge_bool(lambda: (it.E.require(s.has(c)), (lambda p: And(it.uterm(p[0]) == x, it.uterm(p[1]) == y))(it.unpack(s.elem(c), 2)))[1])
            out.append(z3.Exists([c], And(s.has(c), f)))
    return z3.simplify(disj(out))

# ---------------------------------------------------------------- reduce
def f_reduce(it, fn, lst, *init):
    E = it.E
    segs = list(it.iter_segs(lst))
    if init: segs = [One(init[0])] + segs
    if not segs: raise PyRaise("TypeError", "reduce of an empty sequence")
    acc = None; first = True
    for s in segs:
        if isinstance(s, One):
            acc = s.v if first else it.call(fn, [acc, s.v], {}); first = False; continue
        if not E.decide(it.nonempty_f([s])): continue
        part = reduce_gen(it, fn, s)
        acc = part if first else it.call(fn, [acc, part], {}); first = False
    if first: raise PyRaise("TypeError", "reduce of an empty sequence")
    return acc
CANDS = {"sum": lambda x, y: x + y, "max": lambda x, y: If(x >= y, x, y), "min": lambda x, y: If(x <= y, x, y), "prod": lambda x, y: x * y}
def detect(it, res, a, b):
    for k, f in CANDS.items():
        if it.E.valid(res == f(a, b)) is True: return k
    return None
def reduce_sets(it, fn, s):
    "union of the sets of a list: the members of one of them"
    E = it.E; b1, b2 = (Base(E, n, U, E.fresh_fn(n, U, B), kind="name") for n in ("set_a", "set_b")); k1, k2 = (Lst(E, [gen_of(E, b)], "keys") for b in (b1, b2)); w = E.fresh("w", U)
    r = it.call(fn, [k1, k2], {})
    if not isinstance(r, (St, Lst)) or E.valid(zb(it.contains(r, S(w, "name"))) == Or(b1.mem(w), b2.mem(w))) is not True: raise Unsupported("reduce of sets with an operation that is not the union")
    mem, wit = E.fresh_fn("in_union", U, B), E.fresh_fn("union_of", U, s.base.sort); c, x = z3.Const("uc", s.base.sort), z3.Const("uw", U)
    inside = lambda c, x: E.merge_bool(lambda: zb(it.contains(s.elem(c), S(x, "name"))))
    i = inside(c, x)
    E.lemma(z3.ForAll([c, x], Implies(And(s.has(c), i), mem(x)), patterns=[i] if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED else []))
    E.lemma(z3.ForAll([x], Implies(mem(x), And(s.has(wit(x)), inside(wit(x), x))), patterns=[mem(x)]))
    return St(E, U, lambda x: mem(x), None, kind="name")
def reduce_gen(it, fn, s):
    "fold of an operation that acts on the values (+, *, max, min): aggregate of the values"
    E = it.E
    c = E.fresh("r", s.base.sort)
    outs = E.explore(lambda: (E.require(s.has(c)), s.elem(c))[1])
    if any(o.kind == "raise" for o in outs): raise Unsupported("reduce")
    v = outs[0].val
    if isinstance(v, (TreeVal, Dct)): return it.reduce_trees(fn, s)
    if isinstance(v, (S, int, float, Fraction)):
        a, b = E.fresh("a", R), E.fresh("b", R)
        kind = detect(it, real(it.call(fn, [S(a), S(b)], {})), a, b)
        if kind is None: raise Unsupported("reduce with an operation that is not recognised")
        if kind == "prod" and all(isinstance(o.val, S) and o.val.t.sort() == I for o in outs): return ProdOf(Lst(E, [s], "tuple"))
        return S(elem_agg(it, kind, s))
    if isinstance(v, Obj) and hasattr(it, "reduce_objs"): return it.reduce_objs(fn, s, v)
    if (isinstance(v, St) or isinstance(v, Lst) and v.kind == "keys") and len(outs) == 1: return reduce_sets(it, fn, s)
    raise Unsupported(f"reduce over {v!r}")

def data_frame(it, *a, **k):
    if it.data_frame is None: raise Unsupported("data frame")
    return it.data_frame(*a, **k)
class AsgCount:
    "number of joint assignments of a domain"
    def __init__(self, axes): self.axes = axes
class AsgPos:
    "position of a joint assignment among those of its domain, in row-major order"
    def __init__(self, axes, a): self.axes, self.a = axes, a
def asg_range(it, n): return Lst(it.E, [gen_map(it, it.product_of(n.axes), lambda a: AsgPos(n.axes, a))], "gen")
def gen_map(it, b, f): g = gen_of(it.E, b); return Gen(b, g.c, g.g, f)
def asg_list(it, l): return l.segs[0] if isinstance(l, Lst) and len(l.segs) == 1 and isinstance(l.segs[0], Gen) and l.segs[0].base.sort == ASG and z3.is_true(z3.simplify(l.segs[0].g)) else None
class Shares(Arr1):
    "array divided by its sum"
    def __init__(self, lst, of): self.lst, self.of = lst, of
def np_choice(it, a, size=None, replace=True, p=None):
    "any element, of positive probability if probabilities are given"
    E = it.E
    if size is not None: raise Unsupported("several random choices")
    l = asg_range(it, a) if isinstance(a, AsgCount) else Lst(E, it.iter_segs(a)); s = asg_list(it, l)
    if s is None: raise Unsupported("random choice")
    if p is not None:
        if not isinstance(p, Shares): raise Unsupported("random choice with other probabilities")
        w = asg_list(it, p.of)
        if w is None or E.valid(it.same_keys_f(it.keys(w.base.axes), it.keys(s.base.axes))) is not True: raise Unsupported("random choice with probabilities of other elements")
        x = E.fresh("w", ASG); val = lambda a: E.merge_term(lambda: (E.require(w.base.mem(a)), S_real(as_number(it, w.elem(a))))[1])
        if E.decide(E.fresh("negative", B)):
            it.table_facts(x); E.require(w.base.mem(x)); E.require(val(x) < 0); raise PyRaise("ValueError", "probabilities are not non-negative")
        if E.decide(E.fresh("all_zero", B)):
            for y in it.table_witnesses: E.require(Implies(w.base.mem(y), val(y) == 0))
            raise PyRaise("ValueError", "probabilities contain NaN")
    c = E.fresh("chosen", ASG); E.require(s.base.mem(c))
    if p is not None: E.require(val(c) > 0)
    return s.elem(c)
class RandomV:
    "random generator: its choice is any element"
    def __init__(self, it): self.it = it
    def vc_attr(self, it, k):
        if k != "choice": raise Unsupported(f"random {k}")
        def choice(l, *a, **kw):
            E = it.E; l = Lst(E, it.iter_segs(l)) 
            if a or kw or len(l.segs) != 1: raise Unsupported("random choice")
            if not E.decide(it.nonempty_f(l.segs)): raise PyRaise("ValueError", "choice of nothing")
            s = l.segs[0]
            if isinstance(s, One): return s.v
            c = E.fresh("chosen", s.base.sort); E.require(s.has(c)); return s.elem(c)
        return Native("choice", choice)
class ArgSpec:
    def __init__(self, f): self.f = f
    def vc_attr(self, it, k):
        if k != "args": raise Unsupported(f"{k} of a function")
        a = self.f.node.args; return Lst(it.E, [One(x.arg) for x in a.posonlyargs + a.args], "list")
def argspec(f):
    if not isinstance(f, Func): raise Unsupported("arguments of a value that is no function")
    return ArgSpec(f)
def topological_sort(it, g):
    "the nodes, once each, in an order along which all arcs increase"
    E = it.E
    if not isinstance(g, GraphV) or getattr(g, "und", False) or getattr(it, "topo", None) is None: raise Unsupported("topological order")
    g = g.copy(); r = E.fresh_fn("topological", U, I); x, y = z3.Consts("tx ty", U); mem = lambda v: g.isnode(it, v)
    if E.valid(Not(cyclic_f(it, g))) is not True: raise Unsupported("topological order of a graph that may have cycles")
    E.lemma(z3.ForAll([x, y], Implies(And(mem(x), mem(y)), And(Implies(g.edge(x, y), r(x) < r(y)), Implies(r(x) == r(y), x == y))), patterns=[z3.MultiPattern(r(x), r(y))]))
    b = Base(E, "topological", U, mem, lt=lambda a, b: r(a) < r(b), kind="name"); b.rank = r; it.topo(g, r)
    return Lst(E, [gen_of(E, b)], "gen")
def moral_graph(it, g):
    if not hasattr(it, "moral"): raise Unsupported("moral graph")
    return it.moral(g)
# ---------------------------------------------------------------- modules
class NS:
    def __init__(self, name, d): self.name, self.d = name, d
def modules(it):
    N = lambda n, f: Native(n, f)
    npd = {}
    for n, f in dict(array=np_array, ndim=np_ndim, shape=np_shape, reshape=np_reshape, repeat=np_repeat, prod=np_prod, moveaxis=np_moveaxis, transpose=np_transpose, where=np_where,
                     isscalar=np_isscalar, ravel=np_ravel, zeros=np_zeros, nan_to_num=np_nan_to_num, atleast_1d=np_atleast_1d, asarray=np_asarray, copy=np_copy).items():
        npd[n] = N("np." + n, lambda *a, f=f, **k: f(it, *a, **k))
    npd["ones"] = N("np.ones", lambda s: np_zeros(it, s, 1))
    for k in ("sum", "max", "min"): npd[k] = N("np." + k, np_reduce(it, k))
    npd["amax"] = npd["max"]; npd["amin"] = npd["min"]
    npd["inf"] = float("inf"); npd["nan"] = float("nan")
    npd["take"] = N("np.take", lambda *a, **k: (_ for _ in ()).throw(Unsupported("take")))
    npd["log"] = N("np.log", lambda v: S(z3.Function("log", R, R)(real(v))))
    npd["argmax"] = N("np.argmax", lambda v, axis=None: np_argmax(it, v, axis))
    npd["ndarray"] = TypeV("ndarray"); npd["random"] = NS("numpy.random", dict(RandomState=N("RandomState", lambda seed=None: RandomV(it)), choice=N("random.choice", lambda *a, **k: np_choice(it, *a, **k))))
    cat = N("catch_warnings", lambda **k: ("ctx", Lst(it.E, [], "list")))
    def deepcopy(v):
        if isinstance(v, (TreeVal, Dct)): return v
        if isinstance(v, Tensor): return np_copy(it, v)
        raise Unsupported("copy")
    def product(*ls, repeat=1):
        if repeat != 1: raise Unsupported("product with repetition")
        E = it.E; axes = Dct(E)
        for l in ls:
            if isinstance(l, Gen):
                if l.base.sort != U: raise Unsupported("product of lists that are not states")
                c = E.fresh("px", U); r = E.explore(lambda: (E.require(l.has(c)), l.elem(c))[1])
                if not all(o.kind == "ok" and getattr(o.val, "statesof", None) is not None and E.valid(Implies(o.cond, o.val.statesof == c)) is True for o in r): raise Unsupported("product of lists that are not states")
                axes.segs.append(DGen(l.base, l.c, l.g, lambda x: it.states(x)))
            elif getattr(l, "statesof", None) is not None: axes.segs.append(DOne(S(l.statesof, "name"), it.states(l.statesof)))
            else: raise Unsupported("product of lists that are not states")
        k = it.keys(axes)
        if len(axes.segs) > 1:
            for i, a in enumerate(axes.segs):
                for b in axes.segs[:i]:
                    x = E.fresh("px", U); m = lambda s: s.has(x) if isinstance(s, DGen) else x == it.uterm(s.k)
                    if E.valid(Not(And(m(a), m(b)))) is not True: raise Unsupported("product with a list of states that repeats")
        return Lst(E, [gen_of(E, it.product_of(axes))], "gen")
    def combinations(l, r):
        "the pairs of the elements of a list of atoms without repetitions, in the order of the list"
        if isinstance(r, bool) or r != 2: raise Unsupported("combinations of another size")
        E = it.E; l = Lst(E, it.iter_segs(l), "list")
        if len(l.segs) != 1 or not isinstance(l.segs[0], Gen) or not l.segs[0].ident or l.segs[0].base.sort != U: raise Unsupported("combinations")
        s = l.segs[0]; s.base.lt; b = Base(E, "pairs", EDGE, lambda e: And(s.has(EDGE.src(e)), s.has(EDGE.dst(e)), s.base.lt(EDGE.src(e), EDGE.dst(e))), wrap=it.edge_tuple)
        return Lst(E, [gen_of(E, b)], "gen")
    def chain(*ls):
        out = []
        for l in ls: out += concat_gen(it, l) if isinstance(l, Gen) else it.iter_segs(l)
        return Lst(it.E, out, "gen")
    chain_ = N("chain", chain); chain_.vc_attrs = {"from_iterable": N("chain.from_iterable", lambda ls: chain(*[s if isinstance(s, Gen) else s.v for s in it.iter_segs(ls)]))}
    typ = {n: TypeV(n) for n in ("Dict", "List", "Union", "Callable", "Hashable", "Iterable", "Tuple", "Any", "Optional", "Set")}
    typ["TYPE_CHECKING"] = False
    m = {"numpy": npd, "collections": dict(OrderedDict=TypeV("OrderedDict"), defaultdict=TypeV("defaultdict")), "collections.abc": typ, "typing": typ,
         "functools": dict(reduce=N("reduce", lambda fn, l, *i: f_reduce(it, fn, l, *i))), "abc": dict(ABC=TypeV("object"), abstractmethod=N("abstractmethod", lambda f: f)),
         "copy": dict(deepcopy=N("deepcopy", deepcopy), copy=N("copy", deepcopy)), "math": dict(log=N("log", lambda v: S(z3.Function("log", R, R)(real(v)))), inf=float("inf")),
         "warnings": dict(catch_warnings=cat), "pandas": dict(DataFrame=N("DataFrame", lambda *a, **k: data_frame(it, *a, **k)), concat=N("concat", lambda *a, **k: data_frame(it, "concat", *a, **k))), "itertools": dict(product=N("product", product), chain=chain_, combinations=N("combinations", combinations)), "time": dict(time=N("time", lambda: S(it.E.fresh("time", R)))),
         "networkx": dict(connected_components=N("connected_components", lambda g: components(it, g)), node_connected_component=N("node_connected_component", lambda g, v: component(it, g, v)), moral_graph=N("moral_graph", lambda g: moral_graph(it, g)), topological_sort=N("topological_sort", lambda g: topological_sort(it, g)), **{n: TypeV(n) for n in ("NodeNotFound", "NetworkXError", "NetworkXException", "NetworkXNoPath")}, DiGraph=TypeV("DiGraph"), Graph=TypeV("Graph"), node_connectivity=N("node_connectivity", lambda G, s=None, t=None: connectivity(it, G, s, t)), simple_cycles=N("simple_cycles", lambda g: simple_cycles(it, g)), is_directed_acyclic_graph=N("is_directed_acyclic_graph", lambda g: S(Not(cyclic_f(it, g)))), has_path=N("has_path", lambda G, source, target: has_path(it, G, source, target)), d_separated=N("d_separated", lambda g, x, y, z: d_separated(it, g, x, y, z))), "enum": dict(Enum=TypeV("Enum")), "inspect": dict(getfullargspec=N("getfullargspec", argspec)), "logging": {}, "pathlib": dict(Path=TypeV("Path"))}
    return {k: NS(k, v) for k, v in m.items()}

# ---------------------------------------------------------------- attributes and items
def attr(it, o, k):
    E = it.E
    if isinstance(o, S) and o.kind in it.atoms: return it.atoms[o.kind](o.t, k)
    N = lambda f: Native(k, f)
    if isinstance(o, NS):
        if k in o.d: return o.d[k]
        return Opaque(o.name + "." + k)
    if isinstance(o, Opaque): return Opaque(o.name + "." + k)
    if isinstance(o, Module):
        if k in o.ns: return it.resolve(o.ns[k])
        raise PyRaise("AttributeError", k)
    if isinstance(o, GraphV): return graph_attr(it, o, k)
    if isinstance(o, Dct):
        if k == "keys": return N(lambda: it.keys(o))
        if k == "values": return N(lambda: it.values(o))
        if k == "items": return N(lambda: it.items(o))
        if k == "get": return N(lambda key, d=None: it.dget(o, key, d))
        if k == "copy":
            def f(): E.read(o); d = o.snap(); return d
            return N(f)
        if k == "update": return N(lambda *a, **kw: ([it.dict_update(o, x) for x in a], [it.dset(o, x, y) for x, y in kw.items()]) and None)
        if k == "pop":
            def f(key, *d):
                if o.concrete:
                    for i, s in enumerate(o.segs):
                        if E.decide(zb(it.eq(s.k, key))): o.set(o.segs[:i] + o.segs[i + 1:], o.ovr, ("pop", key)); return s.v
                    if d: return d[0]
                    raise PyRaise("KeyError")
                raise Unsupported("pop")
            return N(f)
        if k == "setdefault":
            def f(key, d=None):
                if not E.decide(zb(it.has_key(o, key))): it.dset(o, key, d)
                return it.dget(o, key)
            return N(f)
    if isinstance(o, TypeV) and o.name in ("dict", "OrderedDict") and k == "fromkeys":
        def f(l, v=None):
            l = Lst(E, it.iter_segs(l)); d = Dct(E)
            if l.concrete:
                for x in l.items: it.dset(d, x, v)
                return d
            if it.all_ident(l) and len(l.segs) == 1: return Dct(E, [DGen(s.base, s.c, s.g, lambda x: v) for s in l.segs])
            if it.all_ident(l):
                d = Dct(E)
                for s in l.segs:
                    if isinstance(s, One): it.dset(d, s.v, v)
                    else:
                        prev = d.snap()
                        d.segs.append(DGen(s.base, s.c, z3.simplify(And(s.g, Not(zb(it.has_key(prev, S(s.c)))))), lambda x: v))
                return d
            raise Unsupported("fromkeys")
        return N(f)
    if isinstance(o, Lst):
        if k == "append": return N(lambda v: o.set(o.segs + [One(v)], ("append", v)))
        if k == "extend": return N(lambda l: list_extend(it, o, l))
        if k == "index": return N(lambda v: it.index_of(o, v))
        if k == "copy": return N(lambda: Lst(E, it.iter_segs(o), o.kind))
        if k == "isdisjoint" and o.kind == "keys": return N(lambda l: boolv(disjoint_f(it, it.to_set(o), it.to_set(l))))
        if k == "insert":
            def f(i, v):
                if i == 0: o.set([One(v)] + o.segs, ("insert", v)); return
                raise Unsupported("insert")
            return N(f)
        if k == "remove":
            def f(v):
                if not E.decide(zb(it.contains(o, v))): raise PyRaise("ValueError")
                if not it.all_ident(o): raise Unsupported("remove")
                x = it.uterm(v); segs = []
                for s in o.segs:
                    if isinstance(s, One):
                        if not E.decide(zb(it.eq(s.v, v))): segs.append(s)
                    else: segs.append(Gen(s.base, s.c, z3.simplify(And(s.g, s.c != x))))
                o.set(segs, ("remove", v))
            return N(f)
        if k == "count": raise Unsupported("count")
    if isinstance(o, St):
        if k == "add":
            def f(v):
                if o.vals is not None:
                    if all(not isinstance(s, S) for s in [v]) or True: o.set(None, o.vals + [v], ("add", v))
                else:
                    x = it.uterm(v); old = o.pred; o.set(lambda y: Or(old(y), y == x), None, ("add", v))
            return N(f)
        ops = {"union": "|", "intersection": "&", "difference": "-"}
        if k in ops:
            def f(*ls):
                r = o
                for l in ls: r = it.set_op(ops[k], r, l)
                return r if r is not o else it.to_set(o)
            return N(f)
        if k == "isdisjoint": return N(lambda l: boolv(disjoint_f(it, o, it.to_set(l))))
        if k == "issubset": return N(lambda l: boolv(subset_f(it, o, it.to_set(l))))
        if k == "issuperset": return N(lambda l: boolv(subset_f(it, it.to_set(l), o)))
        if k == "copy": return N(lambda: it.to_set(o))
        if k == "update":
            def f(l): n = it.set_op("|", o, l); o.set(n.pred, n.vals); o.sort = sort_or(o.sort, n.sort)
            return N(f)
    if isinstance(o, Tensor):
        if k == "shape": return shape(it, o)
        if k == "ndim": return np_ndim(it, o)
        if k == "copy": return N(lambda: np_copy(it, o))
        if k in ("sum", "max", "min"): return N(lambda *a, **kw: np_reduce(it, k)(o, *a, **kw))
        if k in ("ravel", "flatten"): return N(lambda: np_ravel(it, o))
        if k == "reshape": return N(lambda s, *r: np_reshape(it, o, s if not r else it.tup(s, *r)))
        if k == "transpose": return N(lambda *a: np_transpose(it, o, a[0] if len(a) == 1 else None))
        if k == "T": raise Unsupported("T")
        if k == "size": return numel(it, o)
        if k == "astype": return N(lambda t: np_copy(it, o))
        if k == "argmax": return N(lambda axis=None: np_argmax(it, o, axis))
        if k == "item": return N(lambda: S(it.scalar_of(o)))
    if isinstance(o, FlatT):
        if k == "ravel": return N(lambda: FlatT(o.t))
        if k == "copy": return N(lambda: FlatT(Tensor(E, o.t.axes, o.t.val), o.kind))
        if k == "reshape": return N(lambda s, *r: np_reshape(it, o, s if not r else it.tup(s, *r)))
        if k == "append" : raise Unsupported("append to values")
    if isinstance(o, Arr2):
        def red(axis=None, **kw):
            if kw or axis not in (1, -1): raise Unsupported("reduction of rows")
            return Arr1(Lst(it.E, [Gen(g.base, g.c, g.g, (lambda g: lambda x: b_max(it, g.elem(x), kind=k))(g)) for g in o.lst.segs], "list"))
        if k in ("min", "max"): return N(red)
        raise Unsupported(f"{k} of rows")
    if isinstance(o, Arr1):
        if k == "ravel": return N(lambda: o)
        if k == "reshape": return N(lambda s, *r: np_reshape(it, o, s if not r else it.tup(s, *r)))
        if k == "copy": return N(lambda: Arr1(o.lst))
        if k == "sum" and asg_list(it, o.lst): return N(lambda: S(b_sum(it, o.lst).t, meta=("sum of", o.lst)))
        if k in ("sum", "max", "min") : return N(lambda: b_sum(it, o.lst) if k == "sum" else b_max(it, o.lst, kind=k))
    if isinstance(o, str):
        if k in ("lower", "upper", "strip", "startswith", "endswith", "split", "join", "replace"):
            def f(*a):
                if all(isinstance(x, (str, int)) for x in a): 
                    r = getattr(o, k)(*a); return Lst(E, [One(x) for x in r]) if isinstance(r, list) else r
                if k == "join": return Opaque("text")
                raise Unsupported("text operation")
            return N(f)
    if isinstance(o, S) and o.t.sort() == U and o.kind == "name":
        if k == "startswith": return N(lambda p: S(z3.Function("startswith:" + p, U, B)(o.t)))
        if k == "lower": return N(lambda: S(z3.Function("lower", U, U)(o.t), "name"))
    if isinstance(o, tuple) and o and o[0] == "exc": return Opaque("exception")
    if isinstance(o, Native) and k in getattr(o, "vc_attrs", {}): return o.vc_attrs[k]
    if isinstance(o, (Func, Bound)) and k == "__name__": return o.node.name if isinstance(o, Func) else o.fn.node.name
    if hasattr(o, "vc_attr"): return o.vc_attr(it, k)
    if isinstance(o, TreeVal) and k in ("items", "keys", "values", "get", "copy"): raise Unsupported("tree as a dictionary")
    if o is None or isinstance(o, (int, float, str, Lst, Dct, St)):
        real_ = (list, tuple, type({}.keys()), type(iter([]))) if isinstance(o, Lst) else (dict,) if isinstance(o, Dct) else (set,) if isinstance(o, St) else (type(o),)
        if any(hasattr(t, k) for t in real_) and not (isinstance(o, Lst) and o.kind in ("list", "tuple") and not hasattr({"list": list, "tuple": tuple}[o.kind], k)): raise Unsupported(f"attribute {k}")
        raise PyRaise("AttributeError", k)
    raise Unsupported(f"attribute {k} of {o!r}")
def boolv(f): return True if z3.is_true(f) else False if z3.is_false(f) else S(f)
def list_extend(it, l, o):
    segs = it.iter_segs(o)
    l.set(l.segs + list(segs), ("append", segs[0].v) if len(segs) == 1 and isinstance(segs[0], One) else None)

def flat_block(it, o, k):
    "values[i*n:(i+1)*n] with n the number of values per state of the first axis: the values for the i-th state"
    E = it.E; a, b = k.a, k.b
    if not (isinstance(a, Stride) and isinstance(b, Stride) and k.c is None and a.k == 0 and b.k == 1 and a.pos is b.pos or isinstance(a, Stride) and isinstance(b, Stride) and z3.eq(a.pos.t, b.pos.t) and (a.k, b.k) == (0, 1)): raise Unsupported("slice of values")
    keys = it.keys(o.t.axes); var = it.uterm(it.first(keys))
    l, x = a.pos.meta[1], a.pos.meta[2]
    if E.valid(it.same_keys_f(l, it.states(var))) is not True: raise Unsupported("slice of values by the index of another list")
    rest = Dct(E, [DGen(s.base, s.c, z3.simplify(And(s.g, s.c != var)), s.val) if isinstance(s, DGen) else s for s in o.t.axes.segs if isinstance(s, DGen) or E.valid(it.uterm(s.k) == var) is not True])
    for pr in (a.prod, b.prod):
        ax = axes_of_sizes(it, pr.lst)
        if E.valid(same_axes(it, ax, rest)) is not True: raise Unsupported("slice of values by another size")
    return FlatT(Tensor(E, rest, lambda X: o.t.val(If(E.lam == var, x, X))), o.kind)
def flat_iter(it, o):
    "values of a table with one axis, as a list over its states"
    E = it.E; keys = it.keys(o.t.axes)
    n = it.length(keys)
    if E.valid(it.as_int(n) == 1) is not True: raise Unsupported("iteration over values")
    var = it.uterm(it.first(keys)); X0 = it.valuation("X1")
    return [gen_of(E, it.states_base(var), lambda s: S(o.t.val(If(E.lam == var, s, X0))))]
def getitem(it, o, k):
    E = it.E
    if isinstance(o, FlatT) and isinstance(k, Slice): return flat_block(it, o, k)
    if isinstance(o, TypeV) or isinstance(o, Opaque): return o
    if isinstance(o, Dct):
        if o.default is not None:
            raise Unsupported("defaultdict")
        return it.dget(o, k)
    if isinstance(o, TreeVal):
        it.open_tree(o.t); o.opened = True
        if E.decide(isleaf(o.t)): raise PyRaise("TypeError", "leaf is not subscriptable")
        if k == "var": return S(tvar(o.t), "name")
        if k == "children": return it.tree_children(o)
        raise PyRaise("KeyError", k)
    if isinstance(o, Lst):
        E.read(o)
        if isinstance(k, bool): k = int(k)
        if isinstance(k, int):
            if o.concrete:
                try: return o.items[k]
                except IndexError: raise PyRaise("IndexError")
            if k >= 0 and all(isinstance(s, One) for s in o.segs[:k + 1]): return o.segs[k].v
            if k == 0: return it.first(o)
            if k == -1 and isinstance(o.segs[-1], One): return o.segs[-1].v
            raise Unsupported("element of a list of unknown length")
        if isinstance(k, Slice):
            if o.concrete and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)): return Lst(E, o.segs[slice(k.a, k.b, k.c)], o.kind)
            if k.a is None and k.b is None and k.c is None: return Lst(E, o.segs, o.kind)
            if k.a in (None, 0) and not isinstance(k.a, bool) and k.c is None and isinstance(k.b, S) and k.b.meta and k.b.meta[0] == "pos" and len(o.segs) == 1 and isinstance(o.segs[0], Gen) and o.segs[0].base.sort == U:
                l, x = k.b.meta[1], k.b.meta[2]; s = o.segs[0]      # the elements before one of its elements
                if len(l.segs) == 1 and isinstance(l.segs[0], Gen) and l.segs[0].base is s.base and E.valid(it.same_keys_f(l, it.keyseq(o))) and E.valid(it.member_f(l, x)):
                    return Lst(E, [Gen(s.base, s.c, And(s.g, s.base.lt(s.c, x)), s.elem)], o.kind)
            raise Unsupported("slice of a list of unknown length")
        if isinstance(k, S) and k.meta and k.meta[0] == "pos":
            l, x = k.meta[1], k.meta[2]
            if E.valid(it.same_keys_f(l, it.keyseq(o))): return it.elem_at(o, x)
            raise Unsupported("index taken from another list")
        if isinstance(k, AsgPos):
            s = asg_list(it, o)
            if s is None or E.valid(it.same_keys_f(it.keys(s.base.axes), it.keys(k.axes))) is not True: raise Unsupported("position among other elements")
            return s.elem(k.a)
        raise Unsupported(f"index {k!r}")
    if isinstance(o, Hits):
        if k != 0: raise Unsupported("position of a further match")
        l = o.lst; x = it.uterm(o.v)
        if l.concrete:
            for i, y in enumerate(l.items):
                if E.decide(zb(it.eq(y, o.v))): return i
            raise PyRaise("IndexError")
        if not E.decide(it.member_f(l, x)): raise PyRaise("IndexError", "state not in the domain")
        return it.pos(l, x)
    if isinstance(o, Tensor): return tensor_index(it, o, k)
    if isinstance(o, Arr1):
        return getitem(it, o.lst, k)
    if isinstance(o, Obj):
        f, _ = o.cls.lookup("__getitem__")
        if f: return it.call(Bound(f, o), [k], {})
    if isinstance(o, str) and isinstance(k, int): return o[k]
    if hasattr(o, "vc_getitem"): return o.vc_getitem(it, k)
    if o is None or isinstance(o, (int, float)): raise PyRaise("TypeError", "not subscriptable")
    raise Unsupported(f"item of {o!r}")
def setitem(it, o, k, v):
    E = it.E
    if isinstance(o, Dct): return it.dset(o, k, v)
    if isinstance(o, Lst):
        if isinstance(k, int) and o.concrete:
            segs = list(o.segs)
            try: segs[k] = One(v)
            except IndexError: raise PyRaise("IndexError")
            o.set(segs, ("setitem", k, v)); return
        if isinstance(k, S) and k.meta and k.meta[0] == "pos" and len(o.segs) == 1 and isinstance(o.segs[0], Gen):
            s = o.segs[0]; l, x = k.meta[1], k.meta[2]
            if not E.valid(it.same_keys_f(l, it.keyseq(o))): raise Unsupported("index taken from another list")
            def elem(y, s=s): return v if E.decide(y == x) else s.elem(y)
            o.set([Gen(s.base, s.c, s.g, elem)], ("setitem", k, v)); return
        raise Unsupported("list assignment")
    if isinstance(o, Tensor): return tensor_setitem(it, o, k, v)
    if hasattr(o, "vc_setitem"): return o.vc_setitem(it, k, v)
    raise Unsupported(f"item assignment on {o!r}")
def delitem(it, o, k):
    if isinstance(o, Dct): return attr(it, o, "pop").fn(k)
    raise Unsupported("del")
