"""Symbolic values: scalars, ordered collections as segments (single elements, or all the elements of a base that meet a
guard, in the order of the base), dictionaries, sets, tables with named axes, trees."""
import z3
from .core import *

class S:
    "symbolic scalar; meta records where an integer position comes from"
    __slots__ = ("t", "kind", "meta")
    def __init__(self, t, kind=None, meta=None): self.t, self.kind, self.meta = t, kind, meta
    def __repr__(self): return f"S({self.t})"
    def __bool__(self): raise Unsupported("truth value of a symbolic scalar used outside of the interpreter")

class Base:
    """a finite set of terms of one sort in a fixed order: the elements of an input collection"""
    def __init__(self, E, name, sort, mem, lt=None, wrap=None, length=None, kind=None):
        self.E, self.name, self.sort, self.mem, self.kind = E, name, sort, E.later(mem), kind
        self._lt = lt; self.wrap = wrap or (lambda x: S(x, kind)); self._len = length; self.sized = length is not None
    @property
    def lt(self):
        if self._lt is None:
            f = self.E.fresh_fn("lt_" + self.name, self.sort, self.sort, B); self._lt = lambda x, y: f(x, y)
            a, b, c = z3.Consts("o_a o_b o_c", self.sort); m = self.mem
            self.E.lemma(z3.ForAll([a, b], Implies(And(m(a), m(b)), And(Not(And(f(a, b), f(b, a))), Or(a == b, f(a, b), f(b, a)))), patterns=[f(a, b)]))
            self.E.lemma(z3.ForAll([a, b, c], Implies(And(m(a), m(b), m(c), f(a, b), f(b, c)), f(a, c)), patterns=[z3.MultiPattern(f(a, b), f(b, c))]))
        return self._lt
    @property
    def length(self):
        if self._len is None:
            self._len = self.E.fresh("len_" + self.name, I); c = z3.Const("c_" + self.name, self.sort)
            self.E.lemma(self._len >= 0); self.E.lemma((self._len == 0) == z3.ForAll([c], Not(self.mem(c))))
            d = z3.Const("d_" + self.name, self.sort); self.E.lemma((self._len <= 1) == z3.ForAll([c, d], Implies(And(self.mem(c), self.mem(d)), c == d)))
        return self._len

class One:
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
class Gen:
    "the elements x of base with guard g (a formula over the constant c), mapped by elem (a function of terms)"
    __slots__ = ("base", "c", "g", "elem", "ident")
    def __init__(self, base, c, g, elem=None): self.base, self.c, self.g, self.elem, self.ident = base, c, g, base.E.later(elem) or base.wrap, elem is None
    def guard(self, x): return z3.substitute(self.g, (self.c, x))
    def has(self, x): return And(self.base.mem(x), self.guard(x))
def gen_of(E, base, elem=None): return Gen(base, E.fresh("x_" + base.name, base.sort), z3.BoolVal(True), elem)

class Lst:
    "list or tuple"
    def __init__(self, E, segs, kind="list", inp=None): self.E, self.segs, self.kind, self.inp, self.birth = E, list(segs), kind, inp, E.birth()
    @property
    def concrete(self): return all(isinstance(s, One) for s in self.segs)
    @property
    def items(self):
        if not self.concrete: raise Unsupported("elements of a list of unknown length")
        return [s.v for s in self.segs]
    def set(self, segs, effect=None):
        self.E.write(self, ("", "segs"), (list(segs),), effect)
    def snap(self): return Lst(self.E, self.segs, self.kind)
    def __repr__(self): return f"{self.kind}{[s.v if isinstance(s, One) else '<'+s.base.name+'>' for s in self.segs]}"

class DOne:
    __slots__ = ("k", "v")
    def __init__(self, k, v): self.k, self.v = k, v
class DGen:
    "entries for the elements of base under g; key is the element itself, or key(x) (injective)"
    __slots__ = ("base", "c", "g", "val", "key")
    def __init__(self, base, c, g, val, key=None): self.base, self.c, self.g, self.val, self.key = base, c, g, base.E.later(val), key
    def guard(self, x): return z3.substitute(self.g, (self.c, x))
    def has(self, x): return And(self.base.mem(x), self.guard(x))
class Dct:
    def __init__(self, E, segs=(), inp=None, ordered=False, ovr=()):
        self.E, self.segs, self.ovr, self.inp, self.ordered, self.birth = E, list(segs), list(ovr), inp, ordered, E.birth()
        self.default = None
    @property
    def concrete(self): return all(isinstance(s, DOne) for s in self.segs) and not self.ovr
    def set(self, segs, ovr, effect=None):
        self.E.write(self, ("", "segs", "ovr"), (list(segs), [(self.E.later(m), self.E.later(v)) for m, v in ovr]), effect)
    def snap(self): return Dct(self.E, self.segs, ordered=self.ordered, ovr=self.ovr)
    def __repr__(self): return "dict{" + ", ".join(f"{s.k}: {s.v}" if isinstance(s, DOne) else "<" + s.base.name + ">" for s in self.segs) + "}"

class St:
    "set: membership formula over terms of one sort; or concrete python values"
    def __init__(self, E, sort=None, pred=None, vals=None, wrap=None, kind=None, inp=None, base=None):
        self.E, self.sort, self.pred, self.vals, self.kind, self.inp, self.birth = E, sort, E.later(pred), vals, kind, inp, E.birth()
        self.wrap = wrap or (lambda x: S(x, kind)); self.base = base
    def set(self, pred, vals, effect=None):
        self.E.write(self, ("", "pred", "vals", "base"), (self.E.later(pred), vals, None), effect)
    def __repr__(self): return f"set({self.vals if self.vals is not None else '...'})"

class Tensor:
    """numpy array with named axes.  axes: Dct label -> list of states (the index of an axis is the position of a state);
    val: function from a valuation (a term over E.lam: label -> state) to a real term.  buf identifies the memory."""
    def __init__(self, E, axes, val, buf=None, inp=None, dtype="real"):
        self.E, self.axes, self.val, self.inp, self.birth, self.dtype = E, axes, E.later(val), inp, E.birth(), dtype
        self.buf = buf if buf is not None else E.birth()
    def mutate(self, val):
        self.E.write(self, ("", "val"), (self.E.later(val),))
    def __repr__(self): return f"tensor({self.axes})"
class RepT:
    "np.repeat(T, prod(sizes)): row-major values of T, each repeated"
    def __init__(self, t, sizes): self.t, self.sizes = t, sizes
class Arr1:
    "numpy array of the elements of a list"
    def __init__(self, lst): self.lst = lst
class Arr2:
    "numpy array with a row per element of a list of lists of one length"
    def __init__(self, lst): self.lst = lst
class ProdOf:
    "product of the sizes in a list"
    def __init__(self, lst): self.lst = lst

class TreeVal:
    """a tree (dict with var/children, or a leaf).  term: observed through the tree functions; or ev: known only through its
    value at every valuation (result of a contract)"""
    def __init__(self, E, t=None, ev=None, facts=None): self.E, self.t, self.ev, self.opened, self.inp = E, t, E.later(ev), None, None
    def __repr__(self): return f"tree({self.t if self.t is not None else 'spec'})"

class Slice:
    def __init__(self, a=None, b=None, c=None): self.a, self.b, self.c = a, b, c
class Poison:
    def __init__(self, why): self.why = why
class Opaque:
    "library object without a model"
    def __init__(self, name): self.name = name
    def __repr__(self): return f"<opaque {self.name}>"
class TypeV:
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, TypeV) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return f"<type {self.name}>"
class Native:
    def __init__(self, name, fn): self.name, self.fn = name, fn
    def __repr__(self): return f"<native {self.name}>"

class Obj:
    def __init__(self, E, cls, inp=None): self.E, self.cls, self.attrs, self.birth, self.inp = E, cls, {}, E.birth(), inp
    def set(self, k, v):
        self.E.write(self, k, v, ("attr", k, v))
    def __repr__(self): return f"<{self.cls.name}>"
class Cls:
    def __init__(self, name, bases, ns, module): 
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.mro = self._mro()
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs): h = s[0]; break
            else: raise Unsupported("inconsistent class hierarchy")
            out.append(h)
            for s in seqs:
                if s and s[0] is h: s.pop(0)
        return out
    def lookup(self, name):
        for c in self.mro:
            if name in c.ns: return c.ns[name], c
        return None, None
    def __repr__(self): return f"<class {self.name}>"
class Func:
    def __init__(self, node, env, module, qual, cls=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.module, self.qual, self.cls = node, env, module, qual, cls
        self.defaults, self.kwdefaults, self.kind = defaults or [], kwdefaults or {}, None
    @property
    def key(self): return f"{self.module.name}:{self.qual}"
    def __repr__(self): return f"<function {self.key}>"
class Bound:
    def __init__(self, fn, self_): self.fn, self.self = fn, self_
class Module:
    def __init__(self, name): self.name, self.ns = name, {}
    def __repr__(self): return f"<module {self.name}>"
class LazyRef:
    def __init__(self, mod, attr): self.mod, self.attr = mod, attr
