"""Heap records, abstract states, canonical forms and joins."""
from .vals import *


class Rec:
    __slots__ = ()


class Lst(Rec):
    __slots__ = ("pieces", "kind")

    def __init__(self, pieces=(), kind="list"):
        self.pieces = tuple(pieces)
        self.kind = kind              # list | iter | deque


class Dct(Rec):
    """dict with constant keys; `const` when every value is a K (no references inside)."""
    __slots__ = ("d", "const", "kind", "default")

    def __init__(self, d, const=None, kind="dict", default=None):
        self.d = d
        self.const = all(isinstance(v, K) for v in d.values()) if const is None else const
        self.kind = kind
        self.default = default


class SetR(Rec):
    __slots__ = ("s", "frozen", "weak")

    def __init__(self, s=(), frozen=False, weak=()):
        self.s = frozenset(s)
        self.frozen = frozen
        self.weak = tuple(weak)       # abstract members


class Obj(Rec):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class ClsR(Rec):
    __slots__ = ("name", "bases", "attrs", "meta")

    def __init__(self, name, bases, attrs, meta=()):
        self.name, self.bases, self.attrs, self.meta = name, tuple(bases), attrs, meta


class Frame(Rec):
    __slots__ = ("vars", "parent", "code", "mod")

    def __init__(self, vars, parent, code, mod):
        self.vars, self.parent, self.code, self.mod = vars, parent, code, mod


class St:
    __slots__ = ("heap", "ins", "nums", "rng", "gh", "pend", "frames", "fl", "trail", "nx", "facts", "seen")

    def __init__(self):
        self.heap = {}
        self.ins = {}
        self.nums = {}
        self.rng = {}
        self.gh = {}
        self.pend = {}
        self.frames = ()
        self.fl = frozenset()
        self.trail = None
        self.nx = 1
        self.facts = ()
        self.seen = ()

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.ins = dict(self.ins)
        s.nums = dict(self.nums)
        s.rng = dict(self.rng)
        s.gh = dict(self.gh)
        s.pend = dict(self.pend)
        s.frames = self.frames
        s.fl = self.fl
        s.trail = self.trail
        s.nx = self.nx
        s.facts = self.facts
        s.seen = self.seen
        return s

    # -- allocation
    def new(self):
        n = self.nx
        self.nx = n + 1
        return n

    def inst(self, uni, mask):
        i = self.new()
        self.ins[i] = (uni, mask)
        return i

    def num(self, ln, lo, hi):
        """An abstract integer value; a constant when it is known."""
        if ln is not None and lin_is_const(ln):
            c = ln[0][1] if ln else 0
            if c == int(c):
                return K(int(c))
        if lo is not None and lo == hi:
            return K(lo)
        n = self.new()
        self.nums[n] = (ln, lo, hi)
        return N(n)

    def flag(self, f):
        if f not in self.fl:
            self.fl = self.fl | {f}

    # -- constants
    def const(self, v):
        """(True, constant) when v is one known constant in this state."""
        if type(v) is K:
            return True, v.v
        if type(v) is Rel:
            u, m = self.ins[v.inst]
            tab = v.tab
            it = bits(m)
            x = tab[next(it)]
            for i in it:
                y = tab[i]
                if y is not x and (type(y) is not type(x) or y != x):
                    return False, None
            return True, x
        if type(v) is Tup:
            out = []
            for i in v.items:
                ok, c = self.const(i)
                if not ok:
                    return False, None
                out.append(c)
            return True, tuple(out)
        if type(v) is S and not v.pieces:
            return True, ""
        return False, None

    def narrow(self, inst, mask):
        u, m = self.ins[inst]
        m &= mask
        if not m:
            return False
        self.ins[inst] = (u, m)
        return True

    # -- numbers
    def vrange(self, sym):
        """Range of a symbol."""
        if sym[0] == "v":
            if sym[1] in self.ins:
                u, m = self.ins[sym[1]]
                vs = [u.vals[i] for i in bits(m)]
                return min(vs), max(vs)
            return None, None
        return self.rng.get(sym, (None, None))

    def lrange(self, ln):
        lo = hi = 0
        for s, c in ln:
            if s == ONE:
                a = b = 1
            else:
                a, b = self.vrange(s)
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        if lo is not None:
            lo = _ceil(lo)
        if hi is not None:
            hi = _floor(hi)
        return lo, hi

    def simp(self, ln):
        """Replace symbols with a one-point range by their value."""
        if ln is None:
            return None
        d, ch = {}, False
        for s, c in ln:
            if s != ONE:
                a, b = self.vrange(s)
                if a is not None and a == b:
                    d[ONE] = d.get(ONE, 0) + c * a
                    ch = True
                    continue
            d[s] = d.get(s, 0) + c
        return lin(d) if ch else ln


def _ceil(x):
    return -((-x) // 1) if not isinstance(x, int) else x


def _floor(x):
    return x // 1 if not isinstance(x, int) else x


def imax(a, b):
    """Larger upper bound (None = +inf)."""
    return None if a is None or b is None else max(a, b)


def imin(a, b):
    """Smaller lower bound (None = -inf)."""
    return None if a is None or b is None else min(a, b)


def refs_of(rec):
    """Values directly inside a record."""
    t = type(rec)
    if t is Lst:
        for p in rec.pieces:
            if p[0] == "E":
                yield p[1]
    elif t is Dct:
        if not rec.const:
            yield from rec.d.values()
        if rec.default is not None:
            yield rec.default
    elif t is Obj:
        yield Ref(rec.cls)
        yield from rec.attrs.values()
    elif t is Frame:
        yield from rec.vars.values()
        if rec.parent is not None:
            yield Ref(rec.parent)
    elif t is ClsR:
        yield from rec.attrs.values()
        for b in rec.bases:
            if isinstance(b, V):
                yield b
    elif t is SetR:
        yield from rec.weak


def map_rec(rec, f, fr):
    """Rebuild a record with values mapped by f and raw ref ids by fr; same object when unchanged."""
    t = type(rec)
    if t is Lst:
        ps = []
        ch = False
        for p in rec.pieces:
            if p[0] == "E":
                v = f(p[1])
                if v is not p[1]:
                    ch = True
                    p = ("E", v)
            ps.append(p)
        return Lst(ps, rec.kind) if ch else rec
    if t is Dct:
        if rec.const:
            return rec
        d = {k: f(v) for k, v in rec.d.items()}
        return Dct(d, None, rec.kind, rec.default) if any(d[k] is not rec.d[k] for k in d) else rec
    if t is Obj:
        d = {k: f(v) for k, v in rec.attrs.items()}
        return Obj(rec.cls, d) if any(d[k] is not rec.attrs[k] for k in d) else rec
    if t is Frame:
        d = {k: f(v) for k, v in rec.vars.items()}
        p = fr(rec.parent) if rec.parent is not None else None
        return Frame(d, p, rec.code, rec.mod) if p != rec.parent or any(d[k] is not rec.vars[k] for k in d) else rec
    if t is SetR:
        w = tuple(f(x) for x in rec.weak)
        return SetR(rec.s, rec.frozen, w) if any(a is not b for a, b in zip(w, rec.weak)) else rec
    return rec


def map_val(v, fi, fn, fr):
    """Rename instances, nums and refs inside a value."""
    t = type(v)
    if t is K or t is Bi or t is Mod or t is Sym:
        return v
    if t is Rel:
        i = fi(v.inst)
        return v if i == v.inst else Rel(i, v.tab)
    if t is N or t is IS:
        n = fn(v.id)
        return v if n == v.id else t(n)
    if t is Ref:
        r = fr(v.id)
        return v if r == v.id else Ref(r)
    if t is Tup:
        it = [map_val(x, fi, fn, fr) for x in v.items]
        return Tup(it) if any(a is not b for a, b in zip(it, v.items)) else v
    if t is S:
        ch = False
        ps = []
        for p in v.pieces:
            if p[0] == "E":
                x = map_val(p[1], fi, fn, fr)
                if x is not p[1]:
                    ch = True
                    p = ("E", x)
            ps.append(p)
        return S(ps) if ch else v
    if t is Bound:
        s = map_val(v.self_, fi, fn, fr)
        f = map_val(v.fn, fi, fn, fr)
        return v if s is v.self_ and f is v.fn else Bound(f, s)
    if t is Meth:
        s = map_val(v.recv, fi, fn, fr)
        return v if s is v.recv else Meth(s, v.name)
    if t is Fn:
        r = fr(v.frame) if v.frame is not None else None
        ds = tuple(map_val(x, fi, fn, fr) for x in v.defaults)
        if r == v.frame and all(a is b for a, b in zip(ds, v.defaults)):
            return v
        return Fn(v.code, r, ds, v.kwdefaults, v.cached)
    if t is Part:
        f = map_val(v.fn, fi, fn, fr)
        a = tuple(map_val(x, fi, fn, fr) for x in v.args)
        k = tuple((n, map_val(x, fi, fn, fr)) for n, x in v.kw)
        return Part(f, a, k)
    if t is Pos:
        q = map_val(S(v.src), fi, fn, fr).pieces if v.src is not None else None
        return Pos(q, map_val(S(v.before), fi, fn, fr).pieces, map_val(S(v.after), fi, fn, fr).pieces, v.off)
    if t is Super:
        return v
    return v
