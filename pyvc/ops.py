"""Operations on symbolic values: equality, membership, length, lookup, iteration."""
import z3
from fractions import Fraction
from .core import *
from .values import *

NUM = (int, float, Fraction)
EDGE = z3.Datatype("Edge"); EDGE.declare("mk", ("src", U), ("dst", U)); EDGE = EDGE.create()

def is_conc(v): return v is None or isinstance(v, (int, float, str, bool, bytes, TypeV, Fraction))
def real(x):
    if isinstance(x, bool): return z3.RealVal(int(x))
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")): raise Unsupported("infinite or undefined number")
        return z3.RealVal(str(Fraction(x).limit_denominator(10**12) if abs(float(Fraction(x).limit_denominator(10**12)) - x) == 0 else Fraction(x)))
    if isinstance(x, S): return real(x.t)
    if isinstance(x, z3.ExprRef):
        if x.sort() == R: return x
        if x.sort() == I: return z3.ToReal(x)
        if x.sort() == B: return If(x, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"number expected: {x!r}")

class Ops:
    "mixin of the interpreter; self.E is the engine"
    # ---- terms
    def uterm(self, v):
        if isinstance(v, S):
            if v.t.sort() == U: return v.t
            if v.t.sort() == I: return self.E.fresh_int_atom(v.t) if hasattr(self.E, "fresh_int_atom") else self.intatom(v.t)
            raise Unsupported(f"atom expected: {v}")
        if isinstance(v, str): return self.E.intern(v)
        if isinstance(v, (int, float, bool)): return self.E.intern(("num", v))
        if v is None: return self.E.intern(("none",))
        raise Unsupported(f"atom expected: {v!r}")
    def intatom(self, t):
        f = z3.Function("int_atom", I, U); return f(t)
    def lam_at(self, X, l): return z3.substitute(X, (self.E.lam, l))
    def override(self, X, l, s): return If(self.E.lam == l, s, X)

    # ---- equality
    def eq(self, a, b):
        if a is b and not isinstance(a, (Poison,)): return True
        if is_conc(a) and is_conc(b): return type(a) == type(b) and a == b if isinstance(a, (TypeV, str)) or isinstance(b, (TypeV, str)) else a == b
        if isinstance(a, S) or isinstance(b, S):
            if not isinstance(a, S): a, b = b, a
            if isinstance(b, S):
                if a.t.sort() == b.t.sort(): return z3.simplify(a.t == b.t)
                ss = {str(a.t.sort()), str(b.t.sort())}
                if "U" in ss: return self.uterm(a) == self.uterm(b) if ss == {"U", "Int"} else False
                return real(a) == real(b)
            if b is None: return False
            if isinstance(b, str): return a.t == self.E.intern(b) if a.t.sort() == U else False
            if isinstance(b, NUM):
                if a.t.sort() == U: return a.t == self.uterm(b)
                if a.t.sort() == B: return a.t if b == 1 else Not(a.t) if b == 0 else False
                if a.t.sort() == I and b == 0 and a.meta and a.meta[0] == "len": return z3.simplify(Not(self.nonempty_f(a.meta[1].segs)))
                if a.t.sort() == I and float(b).is_integer(): return a.t == int(b)
                return real(a) == real(b)
            if isinstance(b, (Lst, Dct, St, TypeV, Obj)): return False
            if isinstance(b, TreeVal) : return real(a) == self.leafnum(b)
            raise Unsupported(f"comparison with {b!r}")
        if a is None or b is None: return False
        if isinstance(a, Lst) and isinstance(b, Lst):
            ka, kb = a.kind, b.kind
            if "keys" in (ka, kb): return self.set_eq(self.to_set(a), self.to_set(b)) if (ka == kb) else False
            if ka != kb: return False
            return self.seq_eq(a, b)
        if isinstance(a, St) and isinstance(b, St): return self.set_eq(a, b)
        if isinstance(a, (St,)) and isinstance(b, Lst) and b.kind == "keys": return self.set_eq(a, self.to_set(b))
        if isinstance(b, (St,)) and isinstance(a, Lst) and a.kind == "keys": return self.set_eq(b, self.to_set(a))
        if isinstance(a, Dct) and isinstance(b, Dct): return self.dict_eq(a, b)
        if type(a) != type(b) and not (isinstance(a, (Obj, Cls, Func)) and isinstance(b, (Obj, Cls, Func))):
            if isinstance(a, (Lst, Dct, St, Obj, Cls, Func)) or isinstance(b, (Lst, Dct, St, Obj, Cls, Func)):
                if not isinstance(a, (Opaque, Poison, Tensor, Arr1, TreeVal)) and not isinstance(b, (Opaque, Poison, Tensor, Arr1, TreeVal)): return False
        if isinstance(a, (Obj, Cls, Func)) and isinstance(b, (Obj, Cls, Func)):
            if isinstance(a, Obj) and a.cls.lookup("__eq__")[0] is not None: raise Unsupported("__eq__")
            return self.obj_same(a, b)
        raise Unsupported(f"comparison of {a!r} and {b!r}")
    def obj_same(self, a, b):
        if a is b: return True
        ia, ib = getattr(a, "ident", None), getattr(b, "ident", None)
        if ia is not None and ib is not None: return ia == ib
        return False
    def mapped(self, e, x):
        "mapped Gen element as a U term, or None"
        v = e(x)
        return self.uterm(v) if isinstance(v, S) and v.t.sort() in (U, I) or isinstance(v, str) else None
    def member_f(self, lst, x):
        "formula: the term x is an element of the list"
        out = []
        for s in lst.segs:
            if isinstance(s, One):
                e = self.eq(s.v, S(x) if x.sort() != EDGE else self.edge_tuple(x)); out.append(zb(e))
            elif s.ident and s.base.sort == x.sort(): out.append(s.has(x))
            else:
                c = self.E.fresh("m", s.base.sort)
                e = self.E.merge_bool(lambda: zb(self.eq(s.elem(c), S(x))))
                out.append(z3.Exists([c], And(s.has(c), e)))
        return z3.simplify(disj(out))
    def edge_tuple(self, e): return Lst(self.E, [One(S(EDGE.src(e), "name")), One(S(EDGE.dst(e), "name"))], "tuple")
    def before_f(self, lst, x, y):
        ins = lambda s, z: zb(self.eq(s.v, S(z))) if isinstance(s, One) else s.has(z)
        out = []
        for i, s in enumerate(lst.segs):
            if isinstance(s, Gen): out.append(And(s.has(x), s.has(y), s.base.lt(x, y)))
            for t in lst.segs[i + 1:]: out.append(And(ins(s, x), ins(t, y)))
        return z3.simplify(disj(out))
    def keyseq(self, lst):
        "the list of the base elements (identity of the segments), if every segment of unknown length is over atoms"
        return Lst(self.E, [s if isinstance(s, One) else Gen(s.base, s.c, s.g) for s in lst.segs], lst.kind)
    def all_ident(self, lst): return all((isinstance(s, One) and isinstance(s.v, (S, str))) or (isinstance(s, Gen) and s.ident) for s in lst.segs)
    def sort_of(self, lst):
        for s in lst.segs:
            if isinstance(s, Gen): return s.base.sort
        return U
    def same_keys_f(self, A, Bl):
        "formula: two lists of atoms have no duplicates, and the same elements in the same order"
        so = self.sort_of(A) if any(isinstance(s, Gen) for s in A.segs) else self.sort_of(Bl)
        if len(A.segs) == len(Bl.segs) and all(self.seg_same(s, t) for s, t in zip(A.segs, Bl.segs)): return z3.BoolVal(True)
        x, y = self.E.fresh("k", so), self.E.fresh("k", so)
        f1 = z3.ForAll([x], self.member_f(A, x) == self.member_f(Bl, x))
        b = self.before_f(A, x, y) == self.before_f(Bl, x, y)
        f2 = z3.BoolVal(True) if z3.is_true(z3.simplify(b)) else z3.ForAll([x, y], Implies(And(self.member_f(A, x), self.member_f(A, y), x != y), b))
        return And(f1, f2, self.dupfree_f(A), self.dupfree_f(Bl))
    def dupfree_f(self, lst):
        "formula: no element is in two parts of the list"
        out = []
        for i, s in enumerate(lst.segs):
            for t in lst.segs[i + 1:]:
                if isinstance(s, One) and isinstance(t, One): out.append(Not(zb(self.eq(s.v, t.v))))
                elif isinstance(s, One) or isinstance(t, One):
                    o, g = (s, t) if isinstance(s, One) else (t, s); x = self.label_of(o.v, g.base.sort)
                    out.append(Not(g.has(x)) if x is not None else z3.BoolVal(False))
                elif s.base.sort == t.base.sort: x = z3.Const("dup", s.base.sort); out.append(z3.ForAll([x], Not(And(s.has(x), t.has(x)))))
        return z3.simplify(conj(out))
    def label_of(self, v, sort):
        if sort == EDGE: return None
        try: x = self.uterm(v)
        except Unsupported: return None
        return x if x.sort() == sort else None
    def seg_same(self, s, t):
        if s is t: return True
        if isinstance(s, Gen) and isinstance(t, Gen) and s.base is t.base and s.ident and t.ident:
            return z3.eq(z3.simplify(z3.substitute(s.g, (s.c, t.c))), z3.simplify(t.g))
        return False
    def seq_eq(self, a, b):
        E = self.E
        if len(a.segs) == len(b.segs) and all(self.seg_same(s, t) for s, t in zip(a.segs, b.segs)): return True
        if a.concrete and b.concrete:
            if len(a.segs) != len(b.segs): return False
            out = [zb(self.eq(x.v, y.v)) for x, y in zip(a.segs, b.segs)]
            return z3.simplify(conj(out)) if out else True
        na, nb = self.length(a), self.length(b)
        if self.all_ident(a) and self.all_ident(b) and (len(a.segs) < 2 or E.valid(self.dupfree_f(a))) and (len(b.segs) < 2 or E.valid(self.dupfree_f(b))): return self.same_keys_f(a, b)
        # mapped lists: enough to have the same keys and the same element for each key
        ga, gb = [s for s in a.segs if isinstance(s, Gen)], [s for s in b.segs if isinstance(s, Gen)]
        suff = None
        if len(ga) == len(a.segs) and len(gb) == len(b.segs) and len({str(s.base.sort) for s in ga + gb}) == 1 and (len(a.segs) == len(b.segs) == 1 or E.valid(self.dupfree_f(a)) and E.valid(self.dupfree_f(b))): suff = self.pointwise(a, b)
        elif len(a.segs) == len(b.segs) and all(isinstance(x, One) == isinstance(y, One) for x, y in zip(a.segs, b.segs)):
            # part by part
            suff = conj([zb(self.eq(x.v, y.v)) if isinstance(x, One) else self.pointwise(Lst(E, [x]), Lst(E, [y])) if x.base.sort == y.base.sort else z3.BoolVal(False) for x, y in zip(a.segs, b.segs)])
        if suff is not None and E.valid(suff): return True
        # without the common beginning, and the parts that are empty
        if len(a.segs) != len(b.segs):
            i = 0
            while i < min(len(a.segs), len(b.segs)):
                x, y = a.segs[i], b.segs[i]
                if isinstance(x, One) != isinstance(y, One) or isinstance(x, Gen) and x.base.sort != y.base.sort: break
                if not (self.seg_same(x, y) or E.valid(zb(self.eq(x.v, y.v)) if isinstance(x, One) else self.pointwise(Lst(E, [x]), Lst(E, [y]))) is True): break
                i += 1
            rest = [x for x in a.segs[i:] + b.segs[i:]]
            if i and not any(isinstance(x, One) for x in rest) and all(E.check(x.has(E.fresh("k", x.base.sort))) == z3.unsat for x in rest): return True
        p = E.fresh("same", B)
        if suff is not None: E.lemma(Implies(suff, p))
        E.lemma(Implies(p, self.as_int(na) == self.as_int(nb)))
        return p
    def pointwise(self, a, b):
        "mapped lists with the same keys and the same element for each key"
        E = self.E; ka, kb = self.keyseq(a), self.keyseq(b)
        k = E.fresh("k", a.segs[0].base.sort)
        def pointwise():
            E.require(self.member_f(ka, k)); E.require(self.member_f(kb, k))
            return zb(self.eq(self.elem_at(a, k), self.elem_at(b, k)))
        same = self.same_keys_f(ka, kb)
        pw = E.explore(pointwise)
        if any(o.kind == "raise" and E.check(o.cond, timeout=E.timeout * 3) != z3.unsat and E.check(o.cond, timeout=E.timeout * 3, mbqi=True) != z3.unsat for o in pw): raise Unsupported("exception while comparing lists")
        pw = [o for o in pw if o.kind != "raise"]
        return And(same, z3.ForAll([k], conj([Implies(o.cond, o.val) for o in pw])))
    def as_int(self, n): return z3.IntVal(n) if isinstance(n, int) else n.t
    def elem_at(self, lst, k):
        "element of a (mapped) list at the base element k"
        for s in lst.segs:
            if isinstance(s, Gen) and (len(lst.segs) == 1 or self.E.decide(s.has(k))): return s.elem(k)
            if isinstance(s, One) and isinstance(s.v, (S, str)) and self.E.decide(zb(self.eq(s.v, S(k)))): return s.v
        raise Unsupported("element of a list at an unknown position")
    def set_eq(self, a, b):
        if a.vals is not None and b.vals is not None:
            if all(is_conc(x) for x in a.vals + b.vals): return all(x in b.vals for x in a.vals) and all(x in a.vals for x in b.vals)
        x = self.E.fresh("e", sort_or(a.sort, b.sort, U))
        return z3.ForAll([x], self.in_set(a, x) == self.in_set(b, x))
    def in_set(self, st, x):
        if st.vals is not None: return z3.simplify(disj([zb(self.eq(v, S(x))) for v in st.vals]))
        if st.sort is not None and st.sort != x.sort(): return z3.BoolVal(False)
        return st.pred(x)
    def dict_eq(self, a, b):
        if a is b or (a.segs == b.segs and a.ovr == b.ovr): return True
        E = self.E
        ka, kb = self.keys(a), self.keys(b)
        ks = self.same_keys_f(ka, kb) if a.ordered and b.ordered else self.set_eq(self.to_set(ka), self.to_set(kb))
        k = E.fresh("k", U)
        def pw():
            E.require(self.member_f(ka, k)); E.require(self.member_f(kb, k))
            return zb(self.eq(self.dget(a, S(k, "name")), self.dget(b, S(k, "name"))))
        outs = E.explore(pw)
        if any(o.kind == "raise" for o in outs): raise Unsupported("exception while comparing dictionaries")
        return And(ks, z3.ForAll([k], conj([Implies(o.cond, o.val) for o in outs])))

    # ---- size and truth
    def card(self, total, sort, pred):
        E = self.E
        for (t, so, p) in E.cards:
            if z3.eq(t, total): return
        for (t, so, p) in E.cards:
            if so != sort: continue
            for (n1, p1, n2, p2) in ((total, pred, t, p), (t, p, total, pred)):
                x = E.fresh("z", sort)
                sub = z3.ForAll([x], Implies(p1(x), p2(x)))
                E.lemma(Implies(sub, n1 <= n2))
                E.lemma(Implies(And(sub, n1 == n2), z3.ForAll([x], Implies(p2(x), p1(x)))))
        E.cards.append((total, sort, pred))
    def length(self, v):
        E = self.E
        if isinstance(v, str): return len(v)
        if isinstance(v, Lst) or isinstance(v, Dct):
            segs = v.segs if isinstance(v, Lst) else [One(s.k) if isinstance(s, DOne) else s for s in v.segs]
            E.read(v)
            n, terms = 0, []
            for s in segs:
                if isinstance(s, One): n += 1
                elif z3.is_true(z3.simplify(s.g)):
                    terms.append(s.base.length)
                    if s.base.kind != "state": self.card(s.base.length, s.base.sort, s.base.mem)
                else:
                    key = (s.base, E.akey(z3.simplify(z3.substitute(s.g, (s.c, z3.Const("cardvar", s.base.sort))))))
                    if not hasattr(E, "cardmemo"): E.cardmemo = {}
                    t = E.cardmemo.get(key)
                    if t is None: t = E.cardmemo[key] = E.fresh("n", I)
                    x = E.fresh("z", s.base.sort)
                    y = E.fresh("z", s.base.sort); E.lemma((t <= 1) == z3.ForAll([x, y], Implies(And(s.has(x), s.has(y)), x == y)))
                    E.lemma(t >= 0); E.lemma((t == 0) == z3.ForAll([x], Not(s.has(x)))); E.lemma(t <= s.base.length)
                    terms.append(t); self.card(t, s.base.sort, s.has); self.card(s.base.length, s.base.sort, s.base.mem)
            if not terms: return n
            total = z3.Sum(*terms) if len(terms) > 1 else terms[0]
            if n: total = total + n
            total = z3.simplify(total)
            if len(segs) > 1:
                keys = self.keyseq(v) if isinstance(v, Lst) else self.keys(v)
                if self.all_ident(keys) and (isinstance(v, Dct) or E.valid(self.dupfree_f(keys))):
                    self.card(total, self.sort_of(keys), lambda x, keys=keys: self.member_f(keys, x))
            if len(segs) == 1 and not n: return S(total, meta=("len", v.snap()))
            return S(total, meta=("len", v.snap()))
        if isinstance(v, St):
            E.read(v)
            if v.vals is not None:
                out = []
                for x in v.vals:
                    if not any(self.E.decide(zb(self.eq(x, y))) for y in out): out.append(x)
                return len(out)
            return self.length(Lst(E, self.iter_segs(v)))
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__len__")
            if f: return self.call(Bound(f, v), [], {})
        if hasattr(v, "vc_len"): return v.vc_len(self)
        raise Unsupported(f"len of {v!r}")
    def nonempty_f(self, segs):
        out = []
        for s in segs:
            if isinstance(s, (One, DOne)): return z3.BoolVal(True)
            if s.base.sized and z3.is_true(z3.simplify(zb(s.g))): out.append(s.base.length > 0); continue
            c = self.E.fresh("c", s.base.sort); out.append(z3.Exists([c], s.has(c)))
        return disj(out)
    def truth_f(self, v):
        if isinstance(v, S):
            if v.t.sort() == B: return v.t
            if v.t.sort() == I and v.meta and v.meta[0] == "len": return z3.simplify(self.nonempty_f(v.meta[1].segs))
            if v.t.sort() in (I, R): return v.t != 0
            if v.t.sort() == U and v.kind == "name": return True
            raise Unsupported("truth value of a state")
        if is_conc(v): return bool(v)
        if isinstance(v, (Lst, Dct)): self.E.read(v); return z3.simplify(self.nonempty_f(v.segs))
        if isinstance(v, St):
            self.E.read(v)
            if v.vals is not None: return len(v.vals) > 0
            x = self.E.fresh("e", sort_or(v.sort, U)); return z3.Exists([x], self.in_set(v, x))
        if isinstance(v, (Func, Bound, Cls, Native, Module)): return True
        if isinstance(v, Obj):
            if v.cls.lookup("__bool__")[0] or v.cls.lookup("__len__")[0]: raise Unsupported("truth value of an object")
            return True
        if hasattr(v, "vc_truth"): return v.vc_truth(self)
        raise Unsupported(f"truth value of {v!r}")
    def truth(self, v): return self.E.decide(self.truth_f(v))

    # ---- membership
    def contains(self, c, v):
        E = self.E
        if isinstance(c, Lst):
            E.read(c, v)
            if c.concrete:
                fs = [self.eq(x.v, v) for x in c.segs]
                if any(f is True for f in fs): return True
                return z3.simplify(disj([zb(f) for f in fs])) if any(f is not False for f in fs) else False
            if isinstance(v, Lst) and v.concrete and len(v.items) == 2 and self.sort_of(c) == EDGE:
                return self.member_f(c, EDGE.mk(self.uterm(v.items[0]), self.uterm(v.items[1])))
            if isinstance(v, (S, str, int)): return self.member_f(c, self.uterm(v))
            if isinstance(v, Obj): return self.obj_member(c, v)
            if v is None: return False
        if isinstance(c, Dct):
            E.read(c, v)
            if isinstance(v, Lst): return self.tuple_key_in(c, v)
            return self.has_key(c, v)
        if isinstance(c, St):
            E.read(c, v)
            if c.vals is not None:
                fs = [self.eq(x, v) for x in c.vals]
                if any(f is True for f in fs): return True
                return z3.simplify(disj([zb(f) for f in fs])) if any(f is not False for f in fs) else False
            if isinstance(v, (S, str)): return z3.simplify(self.in_set(c, self.uterm(v)))
            if v is None: return False
        if isinstance(c, str) and isinstance(v, str): return v in c
        if hasattr(c, "vc_contains"): return c.vc_contains(self, v)
        raise Unsupported(f"{v!r} in {c!r}")
    def obj_member(self, c, v):
        out = []
        for s in c.segs:
            if isinstance(s, One): out.append(zb(self.eq(s.v, v)))
            else:
                e = self.E.fresh("m", s.base.sort); y = s.elem(e); f = getattr(v, "fam", None)
                if f is None and not hasattr(y, "fam"): raise Unsupported("object in a list of unknown length")
                if isinstance(y, Obj) and y.cls.lookup("__eq__")[0]: raise Unsupported("equality of objects in a list of unknown length")
                if f is None or f[0] is not y.fam[0]: raise Unsupported("object in a list of unknown length")
                if not (z3.eq(y.fam[1], e) and s.base.sort == U): raise Unsupported("object in a list of unknown length")
                out.append(s.has(f[1]))      # the tables of different variables are different objects
        return disj(out)
    def tuple_key_in(self, c, v): raise Unsupported("tuple as key")
    def has_key(self, d, k):
        out = []
        for s in d.segs:
            if isinstance(s, DOne): out.append(zb(self.eq(s.k, k)))
            elif isinstance(k, Obj) or isinstance(k, Lst): raise Unsupported("object as key")
            else: out.append(self.dgen_has(s, self.uterm(k)))
        return z3.simplify(disj(out))
    def dgen_has(self, s, x):
        if s.key is None: return s.has(x) if s.base.sort == x.sort() else z3.BoolVal(False)
        c = self.E.fresh("m", s.base.sort)
        return z3.Exists([c], And(s.has(c), s.key(c) == x))

    # ---- dictionaries
    def dget(self, d, k, default=KeyError):
        E = self.E
        E.read(d, k)
        for m, val in reversed(d.ovr):
            if E.decide(m(k)): return val(k)
        for s in d.segs:
            if isinstance(s, DOne):
                if E.decide(zb(self.eq(s.k, k))): return s.v
            elif isinstance(k, Lst): continue
            elif s.key is None:
                x = self.uterm(k)
                if s.base.sort == x.sort() and E.decide(s.has(x)): return s.val(x)
            else:
                x = self.uterm(k)
                if E.decide(self.dgen_has(s, x)):
                    w = E.fresh("key", s.base.sort)
                    E.lemma(Implies(self.dgen_has(s, x), And(s.has(w), s.key(w) == x)))
                    return s.val(w)
        if default is KeyError: raise PyRaise("KeyError", k)
        return default
    def dset(self, d, k, v):
        E = self.E
        d2segs, ovr = d.segs, d.ovr
        if all(isinstance(s, DOne) for s in d.segs) and not d.ovr:
            for i, s in enumerate(d.segs):
                if E.decide(zb(self.eq(s.k, k))):
                    d.set(d.segs[:i] + [DOne(s.k, v)] + d.segs[i + 1:], d.ovr, ("setitem", k, v)); return
            d.set(d.segs + [DOne(k, v)], d.ovr, ("setitem", k, v)); return
        if E.decide(zb(self.has_key(d, k))):
            d.set(d.segs, d.ovr + [(lambda q, k=k: zb(self.eq(q, k)), lambda q, v=v: v)], ("setitem", k, v))
        else: d.set(d.segs + [DOne(k, v)], d.ovr, ("setitem", k, v))
    def keys(self, d):
        self.E.read(d)
        segs = []
        for s in d.segs:
            if isinstance(s, DOne): segs.append(One(s.k))
            elif s.key is None: segs.append(Gen(s.base, s.c, s.g))
            else: segs.append(Gen(s.base, s.c, s.g, lambda x, s=s: S(s.key(x), "name")))
        return Lst(self.E, segs, "keys")
    def dval_at(self, d, s, x):
        if not d.ovr: return s.val(x)
        return self.dget(d, s.base.wrap(x) if s.key is None else S(s.key(x), "name"))
    def values(self, d):
        self.E.read(d); d = d.snap()
        return Lst(self.E, [One(self.dget(d, s.k) if d.ovr else s.v) if isinstance(s, DOne) else Gen(s.base, s.c, s.g, lambda x, s=s: self.dval_at(d, s, x)) for s in d.segs], "values")
    def tup(self, *vs): return Lst(self.E, [One(v) for v in vs], "tuple")
    def items(self, d):
        self.E.read(d); d = d.snap()
        return Lst(self.E, [One(self.tup(s.k, self.dget(d, s.k) if d.ovr else s.v)) if isinstance(s, DOne) else
                            Gen(s.base, s.c, s.g, lambda x, s=s: self.tup(s.base.wrap(x) if s.key is None else S(s.key(x), "name"), self.dval_at(d, s, x))) for s in d.segs], "items")
    def dict_update(self, d, o):
        "d.update(o): entries of o replace those of d, new keys go to the end"
        E = self.E
        if isinstance(o, Lst): o = self.mkdict(o)
        E.read(o)
        if o.concrete:
            for s in o.segs: self.dset(d, s.k, s.v)
            return
        if not d.segs:
            d.set(o.segs, o.ovr, None); return
        o = o.snap(); old = d.snap(); segs, ovr = list(d.segs), list(d.ovr)
        ovr.append((lambda q: zb(self.has_key(o, q)), lambda q: self.dget(o, q)))
        for s in o.segs:
            if isinstance(s, DOne):
                if not E.decide(zb(self.has_key(old, s.k))): segs.append(s)
            else:
                if s.key is not None: raise Unsupported("merging dictionaries with mapped keys")
                segs.append(DGen(s.base, s.c, z3.simplify(And(s.g, Not(self.has_key(old, S(s.c))))), s.val))
        # overrides only matter for keys of d that are in o
        if not any(isinstance(s, DGen) or True for s in d.segs): ovr.pop()
        d.set(segs, ovr, None)

    # ---- conversions
    def iter_segs(self, v):
        E = self.E
        if isinstance(v, Lst): E.read(v); return v.segs
        if isinstance(v, Dct): return self.keys(v).segs
        if isinstance(v, St):
            E.read(v)
            if v.vals is not None:
                out = []
                for x in v.vals:
                    if not any(E.decide(zb(self.eq(x, y))) for y in out): out.append(x)
                return [One(x) for x in out]
            if v.base is None: v.base = Base(E, "set", sort_or(v.sort, U), v.pred, wrap=v.wrap)
            return [gen_of(E, v.base)]
        if isinstance(v, str): return [One(ch) for ch in v]
        if isinstance(v, Arr1): return v.lst.segs
        if isinstance(v, self.lib.FlatT): return self.lib.flat_iter(self, v)
        if hasattr(v, "vc_iter"): return v.vc_iter(self)
        raise Unsupported(f"iteration over {v!r}")
    def to_list(self, v, kind="list"): return Lst(self.E, self.iter_segs(v), kind)
    def to_set(self, v):
        E = self.E
        if isinstance(v, St): return St(E, v.sort, v.pred, list(v.vals) if v.vals is not None else None, v.wrap, v.kind)
        segs = self.iter_segs(v)
        if all(isinstance(s, One) for s in segs): return St(E, None, None, [s.v for s in segs])
        l = Lst(E, segs); so = U
        for s in segs:
            if isinstance(s, Gen):
                if s.ident: so = s.base.sort
                wrap = s.base.wrap if s.ident else None
        return St(E, so, lambda x: self.member_f(l, x), None, wrap)
    def set_pred(self, v):
        st = v if isinstance(v, St) else self.to_set(v)
        return st
    def set_op(self, op, a, b):
        E = self.E
        a, b = self.set_pred(a), self.set_pred(b)
        if a.vals is not None and b.vals is not None:
            inb = lambda x: E.decide(zb(self.contains(b, x)))
            if op == "|": return St(E, None, None, a.vals + [y for y in b.vals if not E.decide(zb(self.contains(a, y)))])
            return St(E, None, None, [x for x in a.vals if inb(x) == (op == "&")])
        if op == "-" and a.vals is not None and not a.vals: return a
        so = sort_or(a.sort, b.sort, U)
        f = {"|": lambda x: Or(self.in_set(a, x), self.in_set(b, x)), "&": lambda x: And(self.in_set(a, x), self.in_set(b, x)),
             "-": lambda x: And(self.in_set(a, x), Not(self.in_set(b, x)))}[op]
        return St(E, so, lambda x: z3.simplify(f(x)), None, a.wrap if a.vals is None else b.wrap, a.kind or b.kind)
    def mkdict(self, pairs):
        "dict(list of pairs)"
        E = self.E; d = Dct(E); pairs = self.iter_segs(pairs)
        if self.row_dict is not None and len(pairs) == 1 and isinstance(pairs[0], Gen) and pairs[0].base.sort == ASG: return self.row_dict(pairs[0])
        for s in pairs:
            if isinstance(s, One):
                k, v = self.unpack(s.v, 2); self.dset(d, k, v)
            else:
                c = E.fresh("x_" + s.base.name, s.base.sort)
                outs = E.explore(lambda: (E.require(s.has(c)), self.unpack(s.elem(c), 2)[0])[1])
                if not outs: continue
                ks = [o.val for o in outs]
                if any(o.kind == "raise" for o in outs): raise Unsupported("exception in the pairs of a dictionary")
                if all(isinstance(k, S) and z3.eq(k.t, c) for k in ks) and s.base.sort == U:
                    seg = DGen(s.base, s.c, s.g, lambda x, s=s: self.unpack(s.elem(x), 2)[1])
                else:
                    kt = E.merge_term(lambda: (E.require(s.has(c)), self.uterm(self.unpack(s.elem(c), 2)[0]))[1])
                    keyf = lambda x, kt=kt, c=c: z3.substitute(kt, (c, x))
                    y = E.fresh("y", s.base.sort)
                    rb, inv = self.rebase(s.base, s.c, s.g, keyf, "keys of a dictionary may collide")
                    seg = DGen(rb, E.fresh("x", U), z3.BoolVal(True), lambda x, s=s, inv=inv: self.unpack(s.elem(inv(x)), 2)[1])
                if d.segs:
                    x = E.fresh("q", s.base.sort)
                    kx = S(x) if seg.key is None else S(seg.key(x))
                    if E.valid(z3.ForAll([x], Implies(seg.has(x), Not(zb(self.has_key(d, kx)))))) is not True: raise Unsupported("keys of a dictionary may repeat")
                d.set(d.segs + [seg], d.ovr)
        return d
    def rebase(self, base, c, g, keyf, why="elements may repeat"):
        """the images key(x) of the elements x of a base under a guard, for an injective key, as a base of their own (same order); with the
        inverse of key"""
        E = self.E; h = lambda x: And(base.mem(x), z3.substitute(g, (c, x))); a, b = z3.Const("rba", base.sort), z3.Const("rbb", base.sort)
        ga, ka = z3.simplify(z3.substitute(g, (c, a))), z3.simplify(keyf(a)); mk = (id(base), E.akey(ga), E.akey(ka))
        inj = z3.ForAll([a, b], Implies(And(h(a), h(b), keyf(a) == keyf(b)), a == b))
        if E.valid(inj) is not True: raise Unsupported(why)
        if mk in self._rebased: return self._rebased[mk][:2]
        inv = E.fresh_fn("inv", U, base.sort); pat = [ka] if z3.is_app(ka) and ka.decl().kind() == z3.Z3_OP_UNINTERPRETED and ka.num_args() else []
        E.lemma(Implies(inj, z3.ForAll([a], Implies(h(a), inv(ka) == a), patterns=pat)))
        lo = lambda y, z: base.lt(inv(y), inv(z))
        r = Base(E, base.name + "'", U, lambda y: And(h(inv(y)), keyf(inv(y)) == y), lo, kind="name")
        self._rebased[mk] = (r, inv, base, ga, ka); return r, inv
    def rebased(self, l):
        "the same list, with the injectively mapped segments of names as segments of their own"
        E = self.E; segs = []
        for s in l.segs:
            if isinstance(s, One) or s.ident: segs.append(s); continue
            c = E.fresh("x_" + s.base.name, s.base.sort)
            kt = E.merge_term(lambda: (E.require(s.has(c)), self.uterm(s.elem(c)))[1])
            if z3.eq(kt, c): segs.append(Gen(s.base, s.c, s.g)); continue
            rb, _ = self.rebase(s.base, s.c, s.g, lambda x, kt=kt, c=c: z3.substitute(kt, (c, x)))
            segs.append(gen_of(E, rb))
        return Lst(E, segs, l.kind)
    def unpack(self, v, n):
        if isinstance(v, Lst) and v.concrete:
            if len(v.segs) != n: raise PyRaise("ValueError", "unpack")
            return v.items
        raise Unsupported(f"unpacking {v!r}")

    # ---- positions
    def pos(self, lst, x):
        "integer position of the atom x in the duplicate-free list"
        if len(lst.segs) == 1 and isinstance(lst.segs[0], Gen) and hasattr(lst.segs[0].base, "var") and z3.is_true(z3.simplify(lst.segs[0].g)):
            t = z3.Function("st_pos", U, U, I)(lst.segs[0].base.var, x); self.E.lemma(Implies(self.member_f(lst, x), And(t >= 0, t < self.length(lst).t))); return S(t, meta=("pos", lst, x))
        if not hasattr(self.E, "posmemo"): self.E.posmemo = {}
        key = tuple((s.base, self.E.akey(z3.simplify(z3.substitute(s.g, (s.c, z3.Const("posvar", s.base.sort)))))) if isinstance(s, Gen) else id(s) for s in lst.segs)
        f = self.E.posmemo.get(key)
        if f is None:
            if len(lst.segs) > 1 and not self.E.valid(self.dupfree_f(lst)): raise Unsupported("position in a list that may have duplicates")
            f = self.E.posmemo[key] = (self.E.fresh_fn("pos", x.sort(), I), lst)
            n = self.length(lst); n = z3.IntVal(n) if isinstance(n, int) else n.t
        n = self.length(lst); n = z3.IntVal(n) if isinstance(n, int) else n.t
        t = f[0](x)
        self.E.lemma(Implies(self.member_f(lst, x), And(t >= 0, t < n)))
        r = getattr(lst.segs[0].base, "rank", None) if len(lst.segs) == 1 and isinstance(lst.segs[0], Gen) else None
        if r is not None:
            a, b = z3.Consts("pa pb", U); self.E.lemma(z3.ForAll([a, b], Implies(And(self.member_f(lst, a), self.member_f(lst, b)), (f[0](a) < f[0](b)) == (r(a) < r(b))), patterns=[z3.MultiPattern(f[0](a), f[0](b))]))
        return S(t, meta=("pos", lst, x))
    def index_of(self, lst, v):
        E = self.E
        if lst.concrete:
            for i, s in enumerate(lst.segs):
                if E.decide(zb(self.eq(s.v, v))): return i
            raise PyRaise("ValueError", "not in list")
        if not self.all_ident(lst): raise Unsupported("index in a list of unknown elements")
        x = self.uterm(v)
        if not E.decide(self.member_f(lst, x)): raise PyRaise("ValueError", "not in list")
        return self.pos(lst.snap(), x)
    def first(self, lst):
        "first element of a list"
        E = self.E
        segs = lst.segs
        for i, s in enumerate(segs):
            if isinstance(s, One): return s.v
            if not E.decide(self.nonempty_f([s])): continue
            key = (s.base, E.akey(z3.simplify(z3.substitute(s.g, (s.c, z3.Const("firstvar", s.base.sort))))))
            memo = E.__dict__.setdefault("firstmemo", {})
            if key in memo: w = memo[key]
            else: w = memo[key] = E.fresh("first", s.base.sort)
            y = z3.Const("y_first", s.base.sort)
            E.lemma(Implies(self.nonempty_f([s]), And(s.has(w), z3.ForAll([y], Implies(s.has(y), Or(y == w, s.base.lt(w, y)))))))
            return s.elem(w)
        raise PyRaise("IndexError", "list index out of range")
