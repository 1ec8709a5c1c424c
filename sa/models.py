"""Abstract meaning of Python's builtins and of the standard library functions the package uses."""
import builtins
import importlib
import itertools
import re

from .vals import *
from .state import *
from . import strs
from .strs import mkS, spieces
from .loops import expand, expand_back, take, make_lab, inst_lab, has_ref

# modules whose functions are pure (on constants they are folded)
PURE_MODULES = {"re", "unicodedata", "functools", "itertools", "operator", "string", "collections", "typing",
                "math", "enum", "dataclasses", "abc", "collections.abc", "__future__", "types", "numbers",
                "fractions", "decimal", "copy", "bisect", "heapq", "warnings", "textwrap", "contextlib"}
EFFECT_MODULES = {"os", "sys", "io", "time", "random", "datetime", "socket", "subprocess", "pathlib", "shutil",
                  "threading", "logging", "json", "pickle", "tempfile", "locale", "secrets", "uuid", "os.path",
                  "urllib", "gc", "atexit", "signal", "builtins", "inspect", "weakref", "platform"}
NAMES = {n for n in dir(builtins)}
EXC = {n: o for n, o in vars(builtins).items() if isinstance(o, type) and issubclass(o, BaseException)}


def _w(f, *a):
    return f(*a)


class Models:
    def mkS(self, st, ps):
        return strs.mkS(st, ps)

    def __init__(self, ip):
        self.ip = ip
        self.pw_funcs = {"len", "str", "int", "bool", "repr", "ord", "chr", "abs", "float", "ascii", "hash", "round",
                         "isinstance", "format", "divmod", "pow", "min", "max", "tuple", "bin", "hex"}

    # ------------------------------------------------------------------ names
    def builtin(self, name):
        if name in NAMES:
            o = getattr(builtins, name)
            return Bi(name, o)
        return None

    def import_module(self, st, dotted):
        ip = self.ip
        if dotted == ip.package or dotted.startswith(ip.package + "."):
            m = ip.modules.get(dotted)
            if m is None:
                if ip.loading:
                    m = ip.load(st, dotted)
                else:
                    m = self.load_late(dotted)
            return m
        top = dotted
        if top in PURE_MODULES or top in EFFECT_MODULES or top.split(".")[0] in EFFECT_MODULES \
                or top in ("importlib", "importlib.resources", "importlib.util", "pkgutil"):
            return Mod(dotted)
        if ip.loading:
            return Mod(dotted)
        return None

    def load_late(self, dotted):
        """Load a module first imported while a call is analysed (as if it had always been loaded)."""
        ip = self.ip
        if ip.source(dotted) is None:
            return None
        s = St()
        s.nx = 10 ** 9 + 10 ** 6 * len(ip.modules)
        saved = (ip.loading, ip.exc, ip.logs, ip.line)
        ip.loading, ip.exc, ip.logs = True, [], []
        try:
            m = ip.load(s, dotted)
        finally:
            ip.loading, ip.exc, ip.logs, ip.line = saved
        ip.base.update(s.heap)
        return m

    def std_attr(self, m, name):
        full = m.name + "." + name
        if full == "importlib.import_module":
            return Bi("importlib.import_module")
        try:
            obj = getattr(importlib.import_module(m.name), name)
        except (ImportError, AttributeError):
            try:
                importlib.import_module(full)
                return Mod(full)
            except ImportError:
                return Bi(full) if self.ip.loading else None
        if m.name == "typing" or m.name == "collections.abc":
            return Bi(full, obj)
        if type(obj).__name__ == "module":
            return Mod(full)
        if isinstance(obj, (int, str, float, bytes, tuple, frozenset, re.RegexFlag)):
            return K(obj)
        return Bi(full, obj)

    # ------------------------------------------------------------------ truth and comparison
    def truth(self, st, v):
        t = type(v)
        if t is K:
            return [(st, bool(v.v))]
        if t is Rel:
            u, m = st.ins[v.inst]
            a = b = 0
            for i in bits(m):
                if v.tab[i]:
                    a |= 1 << i
                else:
                    b |= 1 << i
            if not b:
                return [(st, True)]
            if not a:
                return [(st, False)]
            q = st.copy()
            q.ins[v.inst] = (u, a)
            st.ins[v.inst] = (u, b)
            return [(q, True), (st, False)]
        if t is N:
            ln, lo, hi = st.nums[v.id]
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [(st, True)]
            out = []
            for q, r in self.cmp_num(st, "NotEq", v, K(0)):
                out.append((q, r.v))
            return out
        if t is IS:
            return [(st, True)]
        if t is S:
            lo, hi = strs.slen(st, v)
            if lo > 0:
                return [(st, True)]
            if hi == 0:
                return [(st, False)]
            q = st.copy()
            q.flag("fork")
            st.flag("fork")
            return [(q, True), (st, False)]
        if t is Tup:
            return [(st, bool(v.items))]
        if t is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Lst:
                return self.nonempty(st, v, rec)
            if type(rec) is Dct:
                return [(st, bool(rec.d))]
            if type(rec) is SetR:
                if rec.s:
                    return [(st, True)]
                if not rec.weak:
                    return [(st, False)]
                return [(st, True)]
            if type(rec) is Obj and rec.cls is not None:
                f = self.ip.cls_lookup(st, rec.cls, "__bool__")
                if f is not None:
                    return [y for q, x in self.ip.call(st, Bound(f, v), [], {}) for y in self.truth(q, x)]
                f = self.ip.cls_lookup(st, rec.cls, "__len__")
                if f is not None:
                    return [y for q, x in self.ip.call(st, Bound(f, v), [], {}) for y in self.truth(q, x)]
            return [(st, True)]
        if t in (Fn, Bound, Bi, Mod, Meth, Part):
            return [(st, True)]
        if t is Pos:
            raise Imprecise("truth of a position")
        if t is Sym:
            return [(st, True)]
        raise Imprecise("truth of %r" % (v,))

    def nonempty(self, st, v, rec):
        lo, hi = self.length(st, rec.pieces)
        if lo > 0:
            return [(st, True)]
        if hi == 0:
            return [(st, False)]
        q = st.copy()
        out = []
        for ps in self.nonempty_pieces(rec.pieces):
            x = st.copy()
            x.heap[v.id] = Lst(ps, rec.kind)
            out.append((x, True))
        q.heap[v.id] = Lst((), rec.kind)
        return out + [(q, False)]

    def nonempty_pieces(self, ps):
        """Split a possibly empty piece sequence into its non-empty alternatives."""
        items, _ = expand(self.ip, ps)
        out = []
        g = Graph()
        s, e = g.node(), g.node()
        # first element, then the rest: rebuilt as a two-stage path
        alts = []
        for it, rest in items:
            alts.append((it, rest))
        return [self._cons(it, rest) for it, rest in alts]

    def _cons(self, it, rest):
        if it[0] == "E":
            return (it,) + tuple(rest)
        g = Graph()
        a, b = g.node(), g.node()
        g.add(a, it[1], b)
        h, x, y = freeze(g, a, b)
        return (("P", h, x, y),) + tuple(rest)

    def not_(self, st, v):
        if type(v) is Rel:
            u, m = st.ins[v.inst]
            tab = [None] * len(u.words)
            for i in bits(m):
                tab[i] = not v.tab[i]
            return [(st, self.ip.mkrel(st, v.inst, tab))]
        return [(q, K(not b)) for q, b in self.truth(st, v)]

    def numval(self, st, v):
        """(lin, lo, hi) of an integer value, or None."""
        t = type(v)
        if t is K:
            if isinstance(v.v, (int, bool)):
                return lin_const(int(v.v)), int(v.v), int(v.v)
            return None
        if t is N:
            return st.nums[v.id]
        if t is Rel:
            from .loops import rel_to_lin
            u, m = st.ins[v.inst]
            ws = list(bits(m))
            if not all(isinstance(v.tab[i], int) for i in ws):
                return None
            r = rel_to_lin(st, v) if all(type(v.tab[i]) is int for i in ws) else None
            if r is not None:
                return r
            ys = [int(v.tab[i]) for i in ws]
            return None, min(ys), max(ys)
        return None

    def split_rel_lin(self, st, v):
        """Fork so that an integer Rel is affine in the lexicon value in each result."""
        from .loops import rel_to_lin
        if type(v) is not Rel or rel_to_lin(st, v) is not None:
            return [st]
        u, m = st.ins[v.inst]
        if u.vals is None or not all(type(v.tab[i]) is int for i in bits(m)):
            return [st]
        g = {}
        for i in bits(m):
            g.setdefault(v.tab[i] - u.vals[i], 0)
            g[v.tab[i] - u.vals[i]] |= 1 << i
        if len(g) > 6:
            return [st]
        out = []
        for mask in g.values():
            q = st.copy()
            q.ins[v.inst] = (u, mask)
            out.append(q)
        return out

    def cmp_num(self, st, op, a, b):
        """Compare two abstract integers: list of (state, K(bool))."""
        x, y = self.numval(st, a), self.numval(st, b)
        if x is None or y is None:
            if op == "Eq":
                return [(st, FALSE)]
            if op == "NotEq":
                return [(st, TRUE)]
            raise Imprecise("comparison %r %s %r" % (a, op, b))
        if op in ("Gt", "GtE"):
            a, b, x, y = b, a, y, x
            op = {"Gt": "Lt", "GtE": "LtE"}[op]
        d = lin_add(x[0], y[0], -1)
        if d is not None:
            d = st.simp(d)
            if lin_is_const(d):
                c = d[0][1] if d else 0
                return [(st, K({"Lt": c < 0, "LtE": c <= 0, "Eq": c == 0, "NotEq": c != 0}[op]))]
            dlo, dhi = st.lrange(d)
        else:
            dlo = dhi = None
        lo = None if x[1] is None or y[2] is None else x[1] - y[2]
        hi = None if x[2] is None or y[1] is None else x[2] - y[1]
        if dlo is not None and (lo is None or dlo > lo):
            lo = dlo
        if dhi is not None and (hi is None or dhi < hi):
            hi = dhi
        if d is not None:
            flo, fhi = self.fact_range(st, d)
            if flo is not None and (lo is None or flo > lo):
                lo = flo
            if fhi is not None and (hi is None or fhi < hi):
                hi = fhi
        # a - b in [lo, hi]
        if op == "Lt":
            if hi is not None and hi < 0:
                return [(st, TRUE)]
            if lo is not None and lo >= 0:
                return [(st, FALSE)]
        elif op == "LtE":
            if hi is not None and hi <= 0:
                return [(st, TRUE)]
            if lo is not None and lo > 0:
                return [(st, FALSE)]
        elif op in ("Eq", "NotEq"):
            if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                return [(st, K(op == "NotEq"))]
            if lo == 0 and hi == 0:
                return [(st, K(op == "Eq"))]
        # undecided: fork, narrowing what can be narrowed
        out = []
        for r in (True, False):
            q = st.copy()
            q.flag("split")
            rel = op if r else {"Lt": "GtE", "LtE": "Gt", "Eq": "NotEq", "NotEq": "Eq"}[op]
            if d is not None and any(s[0] == "c" for s, _ in d):
                self.add_fact(q, rel, d)
            if self.narrow_num(q, rel, a, b):
                out.append((q, K(r)))
        return out

    # difference facts over counters: tuple of (rel, lin) meaning lin rel 0
    def add_fact(self, st, rel, d):
        st.facts = st.facts + ((rel, d),)

    def fact_range(self, st, d):
        """Bounds on a linear form implied by the recorded facts (closure over sums of two)."""
        lo = hi = None
        if not st.facts:
            return lo, hi
        ups = []                        # forms known to be <= c
        for rel, f in st.facts:
            if rel == "decimal":
                continue
            if rel in ("Lt", "LtE"):
                ups.append((f, -1 if rel == "Lt" else 0))
            elif rel in ("Gt", "GtE"):
                ups.append((lin_scale(f, -1), -1 if rel == "Gt" else 0))
            elif rel == "Eq":
                ups.append((f, 0))
                ups.append((lin_scale(f, -1), 0))
        closure = {f: c for f, c in ups}
        for _ in range(4):
            ch = False
            items = list(closure.items())
            for f, c in items:
                for g, e in ups:
                    h = lin_add(f, g)
                    if len(h) <= 3 and all(abs(k) <= 1 for _, k in h) and (h not in closure or closure[h] > c + e):
                        closure[h] = c + e
                        ch = True
            if not ch:
                break
        if d in closure:
            hi = closure[d]
        n = lin_scale(d, -1)
        if n in closure:
            lo = -closure[n]
        for rel, f in st.facts:
            if rel == "NotEq" and f in (d, n):
                if hi == 0:
                    hi = -1
                if lo == 0:
                    lo = 1
        return lo, hi

    def narrow_num(self, st, rel, a, b):
        x, y = self.numval(st, a), self.numval(st, b)

        def setr(v, lo, hi):
            if type(v) is N:
                ln, l, h = st.nums[v.id]
                if lo is not None and (l is None or lo > l):
                    l = lo
                if hi is not None and (h is None or hi < h):
                    h = hi
                if l is not None and h is not None and l > h:
                    return False
                st.nums[v.id] = (ln, l, h)
            elif type(v) is Rel:
                u, m = st.ins[v.inst]
                k = 0
                for i in bits(m):
                    c = int(v.tab[i])
                    if (lo is None or c >= lo) and (hi is None or c <= hi):
                        k |= 1 << i
                if not k:
                    return False
                st.ins[v.inst] = (u, k)
            return True
        add = lambda p, k: None if p is None else p + k
        if rel == "Lt":
            return setr(a, None, add(y[2], -1)) and setr(b, add(x[1], 1), None)
        if rel == "LtE":
            return setr(a, None, y[2]) and setr(b, x[1], None)
        if rel == "Gt":
            return setr(a, add(y[1], 1), None) and setr(b, None, add(x[2], -1))
        if rel == "GtE":
            return setr(a, y[1], None) and setr(b, None, x[2])
        if rel == "Eq":
            return setr(a, y[1], y[2]) and setr(b, x[1], x[2])
        if rel == "NotEq":
            for v, o in ((a, y), (b, x)):
                if o[1] is not None and o[1] == o[2]:
                    if type(v) is N:
                        ln, l, h = st.nums[v.id]
                        if l == o[1]:
                            l = l + 1
                        if h == o[1]:
                            h = h - 1
                        if l is not None and h is not None and l > h:
                            return False
                        st.nums[v.id] = (ln, l, h)
                    elif type(v) is Rel:
                        u, m = st.ins[v.inst]
                        k = 0
                        for i in bits(m):
                            if v.tab[i] != o[1]:
                                k |= 1 << i
                        if not k:
                            return False
                        st.ins[v.inst] = (u, k)
            return True
        return True

    def pw2(self, st, a, b, f):
        """f on two values that depend on at most one instance; None if they do not."""
        i = None
        for v in (a, b):
            if type(v) is Rel:
                if i is not None and i != v.inst:
                    return None
                i = v.inst
            elif type(v) is not K:
                ok, c = st.const(v)
                if not ok:
                    return None
        get = lambda v, w: v.tab[w] if type(v) is Rel else st.const(v)[1]
        if i is None:
            try:
                return [(st, K(f(get(a, 0), get(b, 0))))]
            except Exception as e:          # the operation itself raises
                self.ip.throw(st, type(e).__name__)
                return []
        u, m = st.ins[i]
        tab = [None] * len(u.words)
        good, bad = 0, {}
        for w in bits(m):
            try:
                tab[w] = f(get(a, w), get(b, w))
                good |= 1 << w
            except Exception as e:
                bad[type(e).__name__] = bad.get(type(e).__name__, 0) | 1 << w
        for n, mask in bad.items():
            q = st.copy()
            q.ins[i] = (u, mask)
            self.ip.throw(q, n)
        if not good:
            return []
        st.ins[i] = (u, good)
        return [(st, self.ip.mkrel(st, i, tab))]

    OPS = {"Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b,
           "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b,
           "Is": lambda a, b: a is b if not isinstance(a, (int, str)) or isinstance(a, bool) else a == b,
           "IsNot": lambda a, b: not (a is b if not isinstance(a, (int, str)) or isinstance(a, bool) else a == b)}

    def compare(self, st, op, a, b):
        if op == "In" or op == "NotIn":
            return self.contains(st, b, a, op == "NotIn")
        if op in ("Is", "IsNot"):
            neg = op == "IsNot"
            for x, y in ((a, b), (b, a)):
                if type(y) is K and (y.v is None or isinstance(y.v, bool)) and type(x) not in (K, Rel):
                    return [(st, K(neg))]
            if type(a) is Ref and type(b) is Ref:
                return [(st, K((a.id == b.id) != neg))]
        r = self.pw2(st, a, b, self.OPS[op])
        if r is not None:
            return r
        if op in ("Eq", "NotEq"):
            neg = op == "NotEq"
            for x, y in ((a, b), (b, a)):
                if type(x) is Sym:
                    if type(y) is K or type(y) is Rel:
                        return [(st, K(neg))]
                    if type(y) is Sym:
                        return [(st, K((x == y) != neg))]
                if type(x) is Pos and type(y) is K:
                    if y.v == -1 or y.v is None or (isinstance(y.v, int) and y.v < 0):
                        return [(st, K(neg))]
                    if y.v == 0:
                        lo, hi = strs.slen(st, mkS(st, x.before))
                        if lo + x.off > 0:
                            return [(st, K(neg))]
                        if hi == 0 and x.off == 0:
                            return [(st, K(not neg))]
                if type(x) in (N, IS, S, Tup, Ref, Fn, Bi) and type(y) is K and y.v is None:
                    return [(st, K(neg))]
                if type(x) is Tup:
                    if type(y) is K and not isinstance(y.v, tuple):
                        return [(st, K(neg))]
                    if type(y) is K and isinstance(y.v, tuple):
                        y = Tup([K(c) for c in y.v])
                    if type(y) is Tup:
                        return self.seq_eq(st, [("E", i) for i in x.items], [("E", i) for i in y.items], neg)
                if type(x) is Ref and type(y) in (K, N, IS, Rel, S) and type(self.ip.get(st, x.id)) in (Lst, Dct, SetR):
                    return [(st, K(neg))]
            if type(a) is Ref and type(b) is Ref:
                ra, rb = self.ip.get(st, a.id), self.ip.get(st, b.id)
                if a.id == b.id:
                    return [(st, K(not neg))]
                if type(ra) is Lst and type(rb) is Lst:
                    return self.seq_eq(st, ra.pieces, rb.pieces, neg)
                if type(ra) is SetR and type(rb) is SetR and not ra.weak and not rb.weak:
                    return [(st, K((ra.s == rb.s) != neg))]
                if type(ra) is Dct and type(rb) is Dct and ra.const and rb.const:
                    return [(st, K((ra.d == rb.d) != neg))]
                if type(ra) is Obj and ra.cls is not None:
                    f = self.ip.cls_lookup(st, ra.cls, "__eq__")
                    if f is None:
                        return [(st, K(neg))]
            sa, sb = self.isstr(st, a), self.isstr(st, b)
            if sa and sb:
                return self.str_eq(st, a, b, neg)
            if type(a) in (N, Rel, K) and type(b) in (N, Rel, K):
                if self.numval(st, a) is not None and self.numval(st, b) is not None:
                    return self.cmp_num(st, op, a, b)
                if type(a) is Rel and type(b) is Rel:
                    out = []
                    small, other = (a, b) if self.distinct(st, a) <= self.distinct(st, b) else (b, a)
                    for q, c in self.concretize(st, small):
                        out.extend(self.compare(q, op, K(c), other))
                    return out
                return [(st, K(neg))]
            if type(a) in (Fn, Bi, Mod, Bound) or type(b) in (Fn, Bi, Mod, Bound):
                return [(st, K((a == b) != neg))]
        if op in ("Lt", "LtE", "Gt", "GtE"):
            for x, y, sg in ((a, b, 1), (b, a, -1)):
                if type(x) is Pos and type(y) is K and y.v == 0 or type(x) is Pos and type(y) is K and y.v == -1:
                    lo, hi = strs.slen(st, mkS(st, x.before))
                    d_lo = lo + x.off - y.v
                    o = op if sg == 1 else {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}[op]
                    if d_lo > 0:
                        return [(st, K(o in ("Gt", "GtE")))]
                    if o == "GtE":
                        return [(st, TRUE)]
                    if o == "Lt":
                        return [(st, FALSE)]
                    if hi is not None and hi + x.off - y.v == 0:
                        return [(st, K(o in ("GtE", "LtE")))]
            if self.numval(st, a) is not None and self.numval(st, b) is not None:
                return self.cmp_num(st, op, a, b)
            if type(a) is Rel and type(b) is Rel:
                out = []
                for q, c in self.concretize(st, a):
                    out.extend(self.compare(q, op, K(c), b))
                return out
            if type(a) is Tup and type(b) is Tup and len(a.items) == len(b.items) == 2:
                return self.tup_lt(st, op, a, b)
            if (type(a) is K and a.v is None) or (type(b) is K and b.v is None):
                self.ip.throw(st, "TypeError")
                return []
        raise Imprecise("comparison %r %s %r" % (a, op, b))

    def tup_lt(self, st, op, a, b):
        out = []
        for q, r in self.compare(st, "Eq", a.items[0], b.items[0]):
            for x, e in self.truth(q, r):
                if e:
                    out.extend(self.compare(x, op, a.items[1], b.items[1]))
                else:
                    out.extend(self.compare(x, {"LtE": "Lt", "GtE": "Gt"}.get(op, op), a.items[0], b.items[0]))
        return out

    def distinct(self, st, v):
        u, m = st.ins[v.inst]
        return len({v.tab[i] for i in bits(m)})

    def isstr(self, st, v):
        t = type(v)
        if t is K:
            return isinstance(v.v, str)
        if t is Rel:
            u, m = st.ins[v.inst]
            return all(isinstance(v.tab[i], str) for i in bits(m))
        return t in (IS, S)

    def str_eq(self, st, a, b, neg):
        if type(a) is K:
            a, b = b, a
        if type(b) is K:
            if b.v == "":
                return [(q, K((not t) != neg)) for q, t in self.truth(st, a)]
            if type(a) is IS:
                if not b.v.lstrip("-").isdigit():
                    return [(st, K(neg))]
                ln, lo, hi = st.nums[a.id]
                return [(q, K(r.v != neg)) for q, r in self.cmp_num(st, "Eq", N(a.id), K(int(b.v)))]
            if type(a) is S:
                lo, hi = strs.slen(st, a)
                if hi is not None and len(b.v) > hi or len(b.v) < lo:
                    return [(st, K(neg))]
                if len(b.v) == 1:
                    r = strs.all_atoms(self.ip, st, a, lambda w: w == b.v)
                    if r == {False}:
                        return [(st, K(neg))]
                    if r == {True} and lo == hi == 1:
                        return [(st, K(not neg))]
                r = strs.all_atoms(self.ip, st, a, lambda w: w in b.v)
                if r == {False}:
                    return [(st, K(neg))]
        if type(a) is Rel and type(b) is Rel:
            small, other = (a, b) if self.distinct(st, a) <= self.distinct(st, b) else (b, a)
            out = []
            for q, c in self.concretize(st, small):
                for x, r in self.compare(q, "NotEq" if neg else "Eq", other, K(c)):
                    out.append((x, r))
            return out
        if type(a) is IS and type(b) is IS:
            return [(q, K(r.v != neg)) for q, r in self.cmp_num(st, "Eq", N(a.id), N(b.id))]
        if type(a) is Rel and type(b) is IS or type(b) is Rel and type(a) is IS:
            r = a if type(a) is Rel else b
            u, m = st.ins[r.inst]
            if not any(r.tab[i].lstrip("-").isdigit() for i in bits(m)):
                return [(st, K(neg))]
        if type(a) is S and type(b) is S and a == b and all(p[0] == "E" for p in a.pieces):
            return [(st, K(not neg))]
        raise Imprecise("string equality")

    def seq_eq(self, st, pa, pb, neg):
        if any(p[0] == "P" for p in pa) or any(p[0] == "P" for p in pb):
            la, lb = self.length(st, pa), self.length(st, pb)
            if (la[1] is not None and la[1] < lb[0]) or (lb[1] is not None and lb[1] < la[0]):
                return [(st, K(neg))]
            raise Imprecise("equality of abstract lists")
        if len(pa) != len(pb):
            return [(st, K(neg))]
        cur, out = [st], []
        for x, y in zip(pa, pb):
            nxt = []
            for q in cur:
                for q2, r in self.compare(q, "Eq", x[1], y[1]):
                    for q3, t in self.truth(q2, r):
                        if t:
                            nxt.append(q3)
                        else:
                            out.append((q3, K(neg)))
            cur = nxt
        return out + [(q, K(not neg)) for q in cur]

    def concretize(self, st, v):
        """Fork until v is a constant: list of (state, python constant)."""
        ok, c = st.const(v)
        if ok:
            return [(st, c)]
        if type(v) is Rel:
            u, m = st.ins[v.inst]
            g = {}
            for i in bits(m):
                k = (type(v.tab[i]).__name__, v.tab[i])
                g.setdefault(k, [v.tab[i], 0])[1] |= 1 << i
            if len(g) > 2000:
                raise Imprecise("too many values")
            out = []
            for c, mask in g.values():
                q = st.copy()
                q.ins[v.inst] = (u, mask)
                out.append((q, c))
            return out
        if type(v) is Tup:
            outs = [(st, ())]
            for x in v.items:
                outs = [(q2, t + (c,)) for q, t in outs for q2, c in self.concretize(q, x)]
            return outs
        if type(v) is Ref:
            return [(st, v)]
        if type(v) in (Fn, Bi, Sym):
            return [(st, v)]
        raise Imprecise("value %r used as a key" % (v,))

    def contains(self, st, c, x, neg):
        ip = self.ip
        t = type(c)
        if t is K and isinstance(c.v, (str, tuple, frozenset, bytes, range)):
            if isinstance(c.v, str) and type(x) in (S, IS):
                raise Imprecise("abstract substring test")
            if type(x) is Sym:
                return [(st, K(neg))]
            r = self.pw2(st, x, c, lambda a, b: (a in b) != neg)
            if r is not None:
                return r
            if isinstance(c.v, (tuple, frozenset)):
                if type(x) in (IS, S) and not any(isinstance(y, str) for y in c.v):
                    return [(st, K(neg))]
                return self.seq_contains(st, [("E", K(y)) for y in c.v], x, neg)
        if t is Rel:
            r = self.pw2(st, x, c, lambda a, b: (a in b) != neg)
            if r is not None:
                return r
        if t in (S, IS):
            if type(x) is K and isinstance(x.v, str):
                hits = strs.sfind(ip, st, c, x.v)
                out = []
                kinds = {h is not None for _, h in hits}
                if len(kinds) == 1:
                    return [(st, K(kinds.pop() != neg))]
                for k in kinds:
                    q = st.copy()
                    q.flag("fork")
                    out.append((q, K(k != neg)))
                return out
            raise Imprecise("abstract substring test")
        if t is Tup:
            return self.seq_contains(st, [("E", y) for y in c.items], x, neg)
        if t is Ref:
            rec = ip.get(st, c.id)
            if type(rec) is Dct or (type(rec) is SetR and not rec.weak):
                d = rec.d if type(rec) is Dct else rec.s
                if type(x) is Rel:
                    u, m = st.ins[x.inst]
                    tab = [None] * len(u.words)
                    for i in bits(m):
                        tab[i] = (x.tab[i] in d) != neg
                    return [(st, ip.mkrel(st, x.inst, tab))]
                ok, k = st.const(x)
                if ok:
                    return [(st, K((k in d) != neg))]
                if type(x) in (Ref, Fn, Sym):
                    return [(st, K((x in d) != neg))]
                if type(x) is IS:
                    if not any(isinstance(k, str) and k.lstrip("-").isdigit() for k in d):
                        return [(st, K(neg))]
                if type(x) is N:
                    if not any(isinstance(k, (int, float)) for k in d):
                        return [(st, K(neg))]
                if type(x) is S:
                    lo, hi = strs.slen(st, x)
                    cand = [k for k in d if isinstance(k, str) and len(k) >= lo and (hi is None or len(k) <= hi)]
                    if not cand:
                        return [(st, K(neg))]
                    # every atom occurs in no key: then the string is no key
                    if strs.all_atoms(ip, st, x, lambda w: any(w in k for k in cand)) == {False}:
                        return [(st, K(neg))]
                raise Imprecise("membership of %r" % (x,))
            if type(rec) is Lst:
                return self.seq_contains(st, rec.pieces, x, neg)
            if type(rec) is SetR:
                raise Imprecise("membership in an abstract set")
            if type(rec) is Obj and rec.cls is not None:
                f = ip.cls_lookup(st, rec.cls, "__contains__")
                if f is not None:
                    out = []
                    for q, r in ip.call(st, Bound(f, c), [x], {}):
                        out.extend((y, K(b != neg)) for y, b in self.truth(q, r))
                    return out
        raise Imprecise("membership in %r" % (c,))

    def seq_contains(self, st, ps, x, neg):
        if all(p[0] == "E" for p in ps):
            consts = [st.const(p[1]) for p in ps]
            if all(ok for ok, _ in consts) and type(x) in (K, Rel):
                vals = [c for _, c in consts]
                if type(x) is K:
                    return [(st, K((x.v in vals) != neg))]
                u, m = st.ins[x.inst]
                tab = [None] * len(u.words)
                for i in bits(m):
                    tab[i] = (x.tab[i] in vals) != neg
                return [(st, self.ip.mkrel(st, x.inst, tab))]
            cur, out = [st], []
            for p in ps:
                nxt = []
                for q in cur:
                    for q2, r in self.compare(q, "Eq", x, p[1]):
                        for q3, b in self.truth(q2, r):
                            (out if b else nxt).append(q3)
                cur = nxt
            return [(q, K(not neg)) for q in out] + [(q, K(neg)) for q in cur]
        # path: which outcomes are possible
        poss = self.path_any(st, ps, lambda q, v: [(y, b) for z, r in self.compare(q, "Eq", x, v)
                                                  for y, b in self.truth(z, r)])
        out = []
        for b in poss:
            q = st.copy()
            if len(poss) > 1:
                q.flag("fork")
            out.append((q, K(b != neg)))
        return out

    def path_any(self, st, ps, pred):
        """Possible truth values of 'some element satisfies pred' over a piece sequence."""
        cache = {}

        def outcomes(p):
            q = st.copy()
            if p[0] == "E":
                v = p[1]
            else:
                if p[1] in cache:
                    return cache[p[1]]
                v, _ = inst_lab(q, p[1])
            r = {b for _, b in pred(q, v)}
            if p[0] == "L":
                cache[p[1]] = r
            return r
        start = (tuple(ps), False)
        seen, todo, res = {start}, [start], set()
        while todo:
            rest, got = todo.pop()
            items, empty = expand(self.ip, rest)
            if empty:
                res.add(got)
            for it, rest2 in items:
                for b in outcomes(it):
                    k = (rest2, got or b)
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            if len(res) == 2:
                break
        return sorted(res)

    # ------------------------------------------------------------------ arithmetic
    BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
           "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a ** b,
           "Div": lambda a, b: a / b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
           "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b}

    def binop(self, st, op, a, b, inplace=False):
        ip = self.ip
        if type(a) is Bi or type(b) is Bi:
            if op == "BitOr":               # type unions
                return [(st, a)]
        r = None
        if not (type(a) is Tup or type(b) is Tup) and not (isinstance(a, K) and isinstance(a.v, type) and op == "BitOr"):
            if op == "Pow" and type(b) is K and isinstance(b.v, int) and b.v > 5000:
                raise Imprecise("large power")
            r = self.pw2(st, a, b, self.BIN[op]) if op in self.BIN else None
        if r is not None:
            return r
        if op == "Add":
            sa, sb = self.isstr(st, a), self.isstr(st, b)
            if sa and sb:
                return [(st, mkS(st, [("E", a), ("E", b)]))]
            if type(a) is Pos and type(b) is K:
                return [(st, Pos(a.src, a.before, a.after, a.off + b.v))]
            if type(b) is Pos and type(a) is K:
                return [(st, Pos(b.src, b.before, b.after, b.off + a.v))]
            if type(a) is Ref and type(b) is Ref:
                ra, rb = ip.get(st, a.id), ip.get(st, b.id)
                if type(ra) is Lst and type(rb) is Lst:
                    return [(st, ip.alloc(st, Lst(ra.pieces + rb.pieces)))]
                if type(ra) is Obj and ra.cls is not None:
                    f = ip.cls_lookup(st, ra.cls, "__add__")
                    if f is not None:
                        return ip.call(st, Bound(f, a), [b], {})
            if type(a) is Tup or type(b) is Tup:
                ia, ib = self.tup_items(st, a), self.tup_items(st, b)
                if ia is not None and ib is not None:
                    return [(st, Tup(ia + ib))]
            if sa != sb and (sa or sb):
                ip.throw(st, "TypeError")
                return []
        if op == "BitOr" and type(a) is Ref and type(b) is Ref:
            ra, rb = ip.get(st, a.id), ip.get(st, b.id)
            if type(ra) is Dct and type(rb) is Dct:
                return [(st, ip.alloc(st, Dct({**ra.d, **rb.d})))]
            if type(ra) is SetR and type(rb) is SetR:
                return [(st, ip.alloc(st, SetR(ra.s | rb.s, False, ra.weak + rb.weak)))]
        if op == "Mod" and type(a) is K and isinstance(a.v, str):
            return self.percent(st, a.v, b)
        if op == "Mult":
            if type(a) is Ref and type(ip.get(st, a.id)) is Lst and type(b) is K:
                return [(st, ip.alloc(st, Lst(ip.get(st, a.id).pieces * b.v)))]
        if op in ("BitAnd", "Sub", "BitXor") and type(a) is Ref and type(b) is Ref:
            ra, rb = ip.get(st, a.id), ip.get(st, b.id)
            if type(ra) is SetR and type(rb) is SetR and not ra.weak and not rb.weak:
                return [(st, ip.alloc(st, SetR(self.BIN[op](ra.s, rb.s))))]
        out = []
        for q in self.split_rel_lin(st, a):
            for q2 in self.split_rel_lin(q, b):
                out.extend(self.arith(q2, op, a, b))
        return out

    def tup_items(self, st, v):
        if type(v) is Tup:
            return v.items
        if type(v) is K and isinstance(v.v, tuple):
            return tuple(K(x) for x in v.v)
        return None

    def arith(self, st, op, a, b):
        x, y = self.numval(st, a), self.numval(st, b)
        if x is None or y is None:
            if (type(a) is K and a.v is None) or (type(b) is K and b.v is None):
                self.ip.throw(st, "TypeError")
                return []
            raise Imprecise("%s of %r and %r" % (op, a, b))
        if op == "Add":
            lo = None if x[1] is None or y[1] is None else x[1] + y[1]
            hi = None if x[2] is None or y[2] is None else x[2] + y[2]
            ln = lin_add(x[0], y[0])
        elif op == "Sub":
            lo = None if x[1] is None or y[2] is None else x[1] - y[2]
            hi = None if x[2] is None or y[1] is None else x[2] - y[1]
            ln = lin_add(x[0], y[0], -1)
        elif op == "Mult":
            ln = None
            for p, r in ((x, y), (y, x)):
                if p[1] is not None and p[1] == p[2]:
                    ln = lin_scale(r[0], p[1])
            cs = []
            inf = False
            for p in (x[1], x[2]):
                for r in (y[1], y[2]):
                    if p is None or r is None:
                        inf = True
                    else:
                        cs.append(p * r)
            if inf:
                nn = lambda t: t[1] is not None and t[1] >= 0
                lo = x[1] * y[1] if nn(x) and nn(y) else None
                hi = None
            else:
                lo, hi = min(cs), max(cs)
        elif op in ("FloorDiv", "Mod") and y[1] is not None and y[1] == y[2] and y[1] > 0:
            k = y[1]
            if op == "FloorDiv":
                lo = None if x[1] is None else x[1] // k
                hi = None if x[2] is None else x[2] // k
                ln = None
            else:
                ln = None
                if x[1] is not None and x[2] is not None and x[1] // k == x[2] // k:
                    lo, hi = x[1] % k, x[2] % k
                    if x[0] is not None:
                        ln = lin_add(x[0], lin_const(-(x[1] // k) * k))
                else:
                    lo, hi = 0, k - 1
        elif op in ("FloorDiv", "Mod"):
            if (y[1] is None or y[1] <= 0) and (y[2] is None or y[2] >= 0):
                q = st.copy()
                q.flag("fork")
                self.ip.throw(q, "ZeroDivisionError")
            ln = lo = hi = None
            if op == "Mod" and y[1] is not None and y[1] >= 0:
                lo, hi = 0, None if y[2] is None else y[2] - 1
            elif op == "FloorDiv" and y[1] is not None and y[1] >= 0 and x[1] is not None and x[1] >= 0:
                lo, hi = 0, x[2]
        elif op == "Div":
            raise Imprecise("division")
        else:
            raise Imprecise("%s on abstract integers" % op)
        if ln is not None:
            ln = st.simp(ln)
            a2, b2 = st.lrange(ln)
            if a2 is not None and (lo is None or a2 > lo):
                lo = a2
            if b2 is not None and (hi is None or b2 < hi):
                hi = b2
        return [(st, st.num(ln, lo, hi))]

    def percent(self, st, fmt, v):
        items = self.tup_items(st, v)
        if items is None:
            items = (v,)
        parts = re.split(r"(%[sd%])", fmt)
        if any("%" in p for p in parts[::2]):
            raise Imprecise("% format")
        out = [(st, [])]
        it = iter(items)
        for p in parts:
            if p == "%%":
                out = [(q, l + [("E", K("%"))]) for q, l in out]
            elif p in ("%s", "%d"):
                x = next(it)
                out = [(q2, l + [("E", s)]) for q, l in out for q2, s in self.to_str(q, x)]
            elif p:
                out = [(q, l + [("E", K(p))]) for q, l in out]
        return [(q, mkS(q, l)) for q, l in out]

    def to_str(self, st, v):
        t = type(v)
        if t is K:
            return [(st, K(str(v.v)))]
        if t is Rel:
            u, m = st.ins[v.inst]
            tab = [None] * len(u.words)
            for i in bits(m):
                tab[i] = str(v.tab[i])
            return [(st, Rel(v.inst, intern_tab(tab)))]
        if t is N:
            return [(st, IS(v.id))]
        if t in (IS, S):
            return [(st, v)]
        if t is Sym:
            return [(st, v)]
        if t is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Obj and rec.cls is not None:
                for n in ("__str__", "__repr__"):
                    f = self.ip.cls_lookup(st, rec.cls, n)
                    if f is not None:
                        return self.ip.call(st, Bound(f, v), [], {})
        return [(st, Sym("text"))]

    # ------------------------------------------------------------------ sequences
    def pieces(self, st, v):
        """The elements of an iterable: list of (state, pieces)."""
        ip = self.ip
        t = type(v)
        if t is K:
            if isinstance(v.v, (str, tuple, range, frozenset, bytes)):
                xs = sorted(v.v, key=repr) if isinstance(v.v, frozenset) else v.v
                return [(st, tuple(("E", K(x)) for x in xs))]
            if hasattr(v.v, "__iter__") and not isinstance(v.v, (dict, list, set)):
                return [(st, tuple(("E", K(x)) for x in v.v))]
            ip.throw(st, "TypeError")
            return []
        if t is Tup:
            return [(st, tuple(("E", x) for x in v.items))]
        if t is Ref:
            rec = ip.get(st, v.id)
            if type(rec) is Lst:
                return [(st, rec.pieces)]
            if type(rec) is Dct:
                return [(st, tuple(("E", k if isinstance(k, V) else K(k)) for k in rec.d))]
            if type(rec) is SetR:
                if rec.weak:
                    raise Imprecise("iteration over an abstract set")
                return [(st, tuple(("E", K(x)) for x in sorted(rec.s, key=repr)))]
            if type(rec) is Obj and rec.cls is not None:
                f = ip.cls_lookup(st, rec.cls, "__iter__")
                if f is not None:
                    return [y for q, r in ip.call(st, Bound(f, v), [], {}) for y in self.pieces(q, r)]
                if self.is_namedtuple(st, rec.cls):
                    return [(st, tuple(("E", x) for x in rec.attrs.values()))]
        if t is Rel:
            if st.const(v)[0]:
                return self.pieces(st, K(st.const(v)[1]))
            raise NeedPW_(v.inst)
        if t is S or t is IS:
            ex = mkS(st, spieces(st, v))
            if type(ex) is K:
                return self.pieces(st, ex)
            rels = {p[1].inst for p in spieces(st, v) if p[0] == "E" and type(p[1]) is Rel}
            if all(p[0] == "E" for p in spieces(st, v)) and len(rels) == 1:
                raise NeedPW_(sorted(rels)[0])
            return self.char_pieces(st, v)
        raise Imprecise("iteration over %r" % (v,))

    def char_pieces(self, st, v):
        """Characters of an abstract string, each atom word spelled out as a branch of the path."""
        outs = []
        for ps in strs.flatten(spieces(st, v)):
            g = Graph()
            cur = g.node()
            A = cur

            def spell(a, lab, b, tag):
                s = strs.lab_state(lab)
                ws = strs.words_of(s, lab.val)
                if ws is None:
                    raise Imprecise("characters of a composite")
                for w, _ in ws:
                    c = a
                    for i, ch in enumerate(w):
                        d = b if i == len(w) - 1 else g.node((tag, w, i))
                        g.add(c, Lab(K(ch)), d)
                        c = d
                    if not w:
                        raise Imprecise("empty atom")
            for i, p in enumerate(ps):
                dst = g.node()
                if p[0] == "E":
                    spell(cur, make_lab(st, p[1]), dst, ("e", i))
                else:
                    _, h, x, y = p
                    live = h.reaches(y) & h.forward(x)
                    if x == y:
                        raise Imprecise("characters of a loop")
                    into = any(m in live for _, m in h.inn[x])
                    out_of = any(m in live for _, m in h.out[y])
                    for n in live:
                        for lab, m in h.out[n]:
                            if m not in live:
                                continue
                            # entry and exit that lie on a cycle get nodes of their own
                            srcs = [g.node(("n", i, n))] if n != x or into else []
                            srcs += [cur] if n == x else []
                            dsts = [g.node(("n", i, m))] if m != y or out_of else []
                            dsts += [dst] if m == y else []
                            for c in srcs:
                                for d in dsts:
                                    spell(c, lab, d, ("l", i, c, d, lab))
                cur = dst
            q = st.copy()
            q.flag("chars")
            outs.append((q, (("P",) + freeze(g, A, cur),)))
        return outs

    def length(self, st, ps):
        lo = hi = 0
        for p in ps:
            if p[0] == "E":
                lo += 1
                hi = None if hi is None else hi + 1
            else:
                if p[1].dyn is not None:
                    p[1].dyn.note_read(p[1], p[2], p[3])
                r = p[1].lengths(p[2], p[3])
                if r is None:
                    raise Imprecise("empty path")
                lo += r[0]
                hi = None if hi is None or r[1] is None or p[1].dyn is not None else hi + r[1]
        return lo, hi

    def unpack(self, st, v, n, star):
        out = []
        if type(v) is Rel and not st.const(v)[0]:
            u, m = st.ins[v.inst]
            if star is None and all(isinstance(v.tab[i], tuple) and len(v.tab[i]) == n for i in bits(m)):
                return [(st, [self.rel_map(st, v, lambda t, k=k: t[k]) for k in range(n)])]
            raise NeedPW_(v.inst)
        for q, ps in self.pieces(st, v):
            if any(p[0] == "P" for p in ps):
                # take elements one by one
                cur = [(q, [], tuple(ps))]
                if star is not None:
                    raise Imprecise("starred unpacking")
                for _ in range(n):
                    nxt = []
                    for x, vs, rest in cur:
                        items, empty = expand(self.ip, rest)
                        if empty:
                            self.ip.throw(x.copy(), "ValueError")
                        for y, e, r2, _i in take(self.ip, x, items) if items else []:
                            nxt.append((y, vs + [e], r2))
                    cur = nxt
                for x, vs, rest in cur:
                    lo, hi = self.length(x, rest)
                    if hi == 0:
                        out.append((x, vs))
                    else:
                        self.ip.throw(x, "ValueError")
                continue
            vs = [p[1] for p in ps]
            if star is not None:
                k = len(vs) - (n - 1)
                if k < 0:
                    self.ip.throw(q, "ValueError")
                    continue
                mid = self.ip.alloc(q, Lst([("E", x) for x in vs[star:star + k]]))
                out.append((q, vs[:star] + [mid] + vs[star + k:]))
                continue
            if len(vs) != n:
                self.ip.throw(q, "ValueError")
                continue
            out.append((q, vs))
        return out

    def rel_map(self, st, v, f):
        u, m = st.ins[v.inst]
        tab = [None] * len(u.words)
        for i in bits(m):
            tab[i] = f(v.tab[i])
        return self.ip.mkrel(st, v.inst, tab)

    def dict_of(self, st, v):
        if type(v) is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Dct:
                return rec.d
        raise Imprecise("mapping %r" % (v,))

    def mkset(self, st, ps):
        if any(p[0] == "P" for p in ps):
            # only constants can be in an exact set
            vals = set()
            for p in ps:
                labs = [make_lab(st, p[1])] if p[0] == "E" else list(strs.all_labs(p))
                for l in labs:
                    ws = strs.words_of(strs.lab_state(l), l.val)
                    if ws is None:
                        raise Imprecise("set of abstract values")
                    vals |= {w for w, _ in ws}
            q = st
            q.flag("set")
            return [(q, self.ip.alloc(q, SetR((), False, (Sym("anyof"),))))]
        outs = [(st, frozenset())]
        for p in ps:
            outs = [(q2, s | {c}) for q, s in outs for q2, c in self.concretize(q, p[1])]
        return [(q, self.ip.alloc(q, SetR(s))) for q, s in outs]

    def mkdict(self, st, ps):
        if any(p[0] == "P" for p in ps):
            raise Imprecise("dict from an abstract list")
        outs = [(st, {})]
        for p in ps:
            nxt = []
            for q, d in outs:
                for q2, (k, v) in self.unpack(q, p[1], 2, None):
                    for q3, c in self.concretize(q2, k):
                        if len(outs) == 1:
                            d[c] = v
                            nxt.append((q3, d))
                        else:
                            nxt.append((q3, {**d, c: v}))
            outs = nxt
            if len(outs) > 500:
                raise Imprecise("dict with abstract keys")
        return [(q, self.ip.alloc(q, Dct(d))) for q, d in outs]

    def list_extend(self, st, ref, v):
        out = []
        for q, ps in self.pieces(st, v):
            self.consume(q, v)
            rec = self.ip.get(q, ref.id)
            self.ip.set(q, ref.id, Lst(rec.pieces + tuple(ps), rec.kind))
            out.append(q)
        return out

    def consume(self, st, v):
        if type(v) is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Lst and rec.kind == "iter":
                self.ip.set(st, v.id, Lst((), "iter"))

    def index_forward(self, st, ps, k):
        """Element k (from the front) of pieces: list of (state, value) ; IndexError alternatives thrown."""
        out = []
        cur = [(st, tuple(ps))]
        for i in range(k + 1):
            nxt = []
            for q, rest in cur:
                if rest and rest[0][0] == "E":
                    nxt.append((q, rest[0][1], rest[1:]))
                    continue
                items, empty = expand(self.ip, rest)
                if empty:
                    self.ip.throw(q.copy(), "IndexError")
                if not items:
                    continue
                if i < k:
                    # positions only: no need to know the element
                    for r2 in {r for _, r in items}:
                        nxt.append((q.copy(), None, r2))
                else:
                    for x, v, r2, _ in take(self.ip, q, items):
                        nxt.append((x, v, r2))
            if i == k:
                return [(q, v) for q, v, _ in nxt]
            cur = [(q, r) for q, _, r in nxt]
        return out

    def index_back(self, st, ps, k):
        """Element -k (k >= 1): list of (state, value, pieces before, pieces after)."""
        cur = [(st, tuple(ps), ())]
        for i in range(k):
            nxt = []
            for q, rest, tail in cur:
                if rest and rest[-1][0] == "E":
                    nxt.append((q, rest[-1][1], rest[:-1], tail))
                    continue
                items, empty = expand_back(self.ip, rest)
                if empty:
                    self.ip.throw(q.copy(), "IndexError")
                if items:
                    for x, v, r2, _ in take(self.ip, q, items):
                        nxt.append((x, v, r2, tail))
            if i == k - 1:
                return nxt
            cur = [(q, r, (("E", v),) + t) for q, v, r, t in nxt]
        return []

    def subscript(self, st, o, i):
        ip = self.ip
        t = type(o)
        if t is Ref:
            rec = ip.get(st, o.id)
            if type(rec) is Dct:
                return self.dict_get(st, o, rec, i, None)
            if type(rec) is Lst:
                return self.list_index(st, o, rec, i)
            if type(rec) is Obj and rec.cls is not None:
                f = ip.cls_lookup(st, rec.cls, "__getitem__")
                if f is not None:
                    return ip.call(st, Bound(f, o), [i], {})
                if self.is_namedtuple(st, rec.cls) and type(i) is K:
                    return [(st, list(rec.attrs.values())[i.v])]
            if type(rec) is ClsR:
                return [(st, o)]
        if t is Tup:
            if type(i) is K and isinstance(i.v, int):
                if -len(o.items) <= i.v < len(o.items):
                    return [(st, o.items[i.v])]
                ip.throw(st, "IndexError")
                return []
            if type(i) is Rel:
                out = []
                for q, c in self.concretize(st, i):
                    out.extend(self.subscript(q, o, K(c)))
                return out
        if t in (K, Rel) and type(i) in (K, Rel):
            r = self.pw2(st, o, i, lambda a, b: a[b])
            if r is not None:
                return r
        if t is S and type(i) is K and isinstance(i.v, int):
            p = o.pieces[0 if i.v >= 0 else -1]
            if i.v in (0, -1):
                if p[0] == "E" and type(p[1]) in (K, Rel):
                    return self.subscript(st, p[1], i)
                hits = self.index_forward(st, o.pieces, 0) if i.v == 0 else \
                    [(q, v) for q, v, _, _ in self.index_back(st, o.pieces, 1)]
                out = []
                for q, v in hits:
                    if type(v) not in (K, Rel) or not all(c for c, _ in strs.words_of(q, v)):
                        raise Imprecise("subscript %r[%r]" % (o, i))
                    out += self.subscript(q, v, i)
                return out
        if t is Bi or (t is K and isinstance(o.v, type)):
            return [(st, o)]
        raise Imprecise("subscript %r[%r]" % (o, i))

    def list_index(self, st, o, rec, i):
        ip = self.ip
        ps = rec.pieces
        if type(i) is K and isinstance(i.v, int):
            k = int(i.v)
            if all(p[0] == "E" for p in ps):
                if -len(ps) <= k < len(ps):
                    return [(st, ps[k][1])]
                ip.throw(st, "IndexError")
                return []
            if k >= 0:
                return self.index_forward(st, ps, k)
            out = []
            for q, v, before, after in self.index_back(st, ps, -k):
                # remember which element it was
                q.heap[o.id] = Lst(tuple(before) + (("E", v),) + tuple(after), rec.kind) \
                    if o.id in q.heap and not has_ref(v) else q.heap.get(o.id, rec)
                out.append((q, v))
            return out
        if type(i) is Rel:
            out = []
            for q, c in self.concretize(st, i):
                out.extend(self.list_index(q, o, rec, K(c)))
            return out
        if type(i) is Pos and i.src == ("list", o.id):
            pass
        if type(i) is N and i.id in st.nums:
            return self.cursor_index(st, o, rec, i)
        raise Imprecise("list index %r" % (i,))

    def cursor_index(self, st, o, rec, i):
        raise Imprecise("list indexed by an unknown integer")

    def dict_get(self, st, o, rec, i, default):
        """d[i] (default None: KeyError) or d.get(i, default)."""
        ip = self.ip
        d = rec.d
        if type(i) is Rel:
            u, m = st.ins[i.inst]
            hit, miss = 0, 0
            for w in bits(m):
                try:
                    if i.tab[w] in d:
                        hit |= 1 << w
                    else:
                        miss |= 1 << w
                except TypeError:
                    raise Imprecise("unhashable key")
            if default is not None and type(default) is K and hit and miss and \
                    all(type(d[i.tab[w]]) is K for w in bits(hit)):
                tab = [None] * len(u.words)
                for w in bits(m):
                    tab[w] = d[i.tab[w]].v if hit >> w & 1 else default.v
                return [(st, ip.mkrel(st, i.inst, tab))]
            out = []
            if miss:
                q = st.copy() if hit else st
                q.ins[i.inst] = (u, miss)
                out.extend(self.dict_miss(q, o, rec, i, default))
            if hit:
                st.ins[i.inst] = (u, hit)
                if all(type(d[i.tab[w]]) is K for w in bits(hit)):
                    tab = [None] * len(u.words)
                    for w in bits(hit):
                        tab[w] = d[i.tab[w]].v
                    out.append((st, ip.mkrel(st, i.inst, tab)))
                else:
                    g = {}
                    for w in bits(hit):
                        g.setdefault(d[i.tab[w]], 0)
                        g[d[i.tab[w]]] |= 1 << w
                    for v, mask in g.items():
                        q = st.copy()
                        q.ins[i.inst] = (u, mask)
                        out.append((q, v))
            return out
        if type(i) in (Sym, Ref, Fn):
            k = i
        elif type(i) in (IS, N, S):
            q, (c, r) = st, (None, None)
            res = self.contains(st, o, i, False)
            if len(res) == 1 and res[0][1] == FALSE:
                return self.dict_miss(st, o, rec, i, default)
            raise Imprecise("dict key %r" % (i,))
        else:
            ok, k = st.const(i)
            if not ok:
                out = []
                for q, c in self.concretize(st, i):
                    out.extend(self.dict_get(q, o, rec, K(c), default))
                return out
        try:
            if k in d:
                return [(st, d[k])]
        except TypeError:
            ip.throw(st, "TypeError")
            return []
        return self.dict_miss(st, o, rec, i, default)

    def dict_miss(self, st, o, rec, i, default):
        if default is not None:
            return [(st, default)]
        if rec.kind == "defaultdict" and rec.default is not None:
            out = []
            for q, v in self.ip.call(st, rec.default, [], {}):
                for q2 in self.setitem(q, o, i, v):
                    out.append((q2, v))
            return out
        if rec.kind == "Counter":
            return [(st, K(0))]
        self.ip.throw(st, "KeyError")
        return []

    def setitem(self, st, o, i, v):
        ip = self.ip
        if type(o) is Ref:
            rec = ip.get(st, o.id)
            if type(rec) is Dct:
                out = []
                for q, c in self.concretize(st, i):
                    r = ip.get(q, o.id)
                    ip.set(q, o.id, Dct({**r.d, c: v}, None, r.kind, r.default))
                    out.append(q)
                return out
            if type(rec) is Lst and type(i) is K and isinstance(i.v, int):
                ps = list(rec.pieces)
                k = i.v
                if all(p[0] == "E" for p in ps):
                    if not -len(ps) <= k < len(ps):
                        ip.throw(st, "IndexError")
                        return []
                    ps[k] = ("E", v)
                    ip.set(st, o.id, Lst(ps, rec.kind))
                    return [st]
                if k < 0:
                    out = []
                    for q, old, before, after in self.index_back(st, ps, -k):
                        ip.set(q, o.id, Lst(tuple(before) + (("E", v),) + tuple(after), rec.kind))
                        out.append(q)
                    return out
            if type(rec) is Obj and rec.cls is not None:
                f = ip.cls_lookup(st, rec.cls, "__setitem__")
                if f is not None:
                    return [q for q, _ in ip.call(st, Bound(f, o), [i, v], {})]
        raise Imprecise("item assignment on %r" % (o,))

    def delitem(self, st, o, i):
        ip = self.ip
        rec = ip.get(st, o.id) if type(o) is Ref else None
        if type(rec) is Dct:
            out = []
            for q, c in self.concretize(st, i):
                r = ip.get(q, o.id)
                if c not in r.d:
                    ip.throw(q, "KeyError")
                    continue
                d = dict(r.d)
                del d[c]
                ip.set(q, o.id, Dct(d, None, r.kind, r.default))
                out.append(q)
            return out
        if type(rec) is Lst and type(i) is K:
            return [q for q, _ in self.list_pop(st, o, i)]
        raise Imprecise("del item")

    def delslice(self, st, o, lo, hi):
        rec = self.ip.get(st, o.id) if type(o) is Ref else None
        if type(rec) is Lst:
            if lo in (NONE, K(0)) and hi == NONE:
                self.ip.set(st, o.id, Lst((), rec.kind))
                return [st]
            out = []
            for q, v in self.slice(st, o, NONE, lo):
                for q2, w in (self.slice(q, o, hi, NONE) if hi != NONE else [(q, None)]):
                    ps = self.ip.get(q2, v.id).pieces + (self.ip.get(q2, w.id).pieces if w is not None else ())
                    self.ip.set(q2, o.id, Lst(ps, rec.kind))
                    out.append(q2)
            return out
        raise Imprecise("del slice")

    def setslice(self, st, o, lo, hi, v):
        rec = self.ip.get(st, o.id) if type(o) is Ref else None
        if type(rec) is not Lst:
            raise Imprecise("assignment to a slice")
        full = lo in (NONE, K(0)) and hi == NONE
        if not full and not (type(lo) is K and type(hi) is K):
            raise Imprecise("slice bounds")
        if type(lo) is K and type(hi) is K and lo.v is not None and hi.v is not None and 0 <= hi.v < lo.v:
            hi = lo
        out = []
        for q, ps in self.pieces(st, v):
            if full:
                self.ip.set(q, o.id, Lst(tuple(ps), rec.kind))
                out.append(q)
                continue
            for q1, a in (self.list_slice(q, rec.pieces, NONE, lo) if lo != NONE else [(q, ())]):
                for q2, b in (self.list_slice(q1, rec.pieces, hi, NONE) if hi != NONE else [(q1, ())]):
                    self.ip.set(q2, o.id, Lst(tuple(a) + tuple(ps) + tuple(b), rec.kind))
                    out.append(q2)
        return out

    def slice(self, st, o, lo, hi):
        ip = self.ip
        t = type(o)
        if t is K or t is Rel:
            ok1, l = st.const(lo)
            ok2, h = st.const(hi)
            if ok1 and ok2:
                return self.pw2(st, o, K((l, h)), lambda a, b: a[b[0]:b[1]])
            raise Imprecise("slice bounds")
        if t is Tup and type(lo) is K and type(hi) is K:
            return [(st, Tup(o.items[lo.v:hi.v]))]
        if t is S or t is IS:
            return self.str_slice(st, o, lo, hi)
        if t is Ref:
            rec = ip.get(st, o.id)
            if type(rec) is Lst:
                return [(q, ip.alloc(q, Lst(ps))) for q, ps in self.list_slice(st, rec.pieces, lo, hi)]
        raise Imprecise("slice of %r" % (o,))

    def list_slice(self, st, ps, lo, hi):
        ok1, l = st.const(lo)
        ok2, h = st.const(hi)
        if not ok1 or not ok2:
            raise Imprecise("slice bounds")
        if all(p[0] == "E" for p in ps):
            return [(st, tuple(ps)[l:h])]
        outs = [(st, tuple(ps))]
        if l:
            if l > 0:
                for _ in range(l):
                    nxt = []
                    for q, r in outs:
                        if r and r[0][0] == "E":
                            nxt.append((q, r[1:]))
                            continue
                        items, empty = expand(self.ip, r)
                        alts = list(dict.fromkeys(x for _, x in items))
                        if empty:
                            alts.append(())
                        for k, x in enumerate(alts):
                            nxt.append((q.copy() if k < len(alts) - 1 else q, x))
                    outs = nxt
                    if len(outs) > 300:
                        raise Imprecise("long slice")
            else:
                res = []
                for q, r in outs:
                    cur = [(q, r, ())]
                    for _ in range(-l):
                        nx = []
                        for x, b, tail in cur:
                            items, empty = expand_back(self.ip, b)
                            if empty:
                                nx.append((x.copy(), (), tail))
                            for y, v, b2, _i in take(self.ip, x, items) if items else []:
                                nx.append((y, b2, (("E", v),) + tail))
                        cur = nx
                        if len(cur) > 300:
                            raise Imprecise("long slice")
                    res.extend((x, tail) for x, _, tail in cur)
                outs = res
        if h is not None:
            if h < 0:
                for _ in range(-h):
                    nxt = []
                    for q, r in outs:
                        if r and r[-1][0] == "E":
                            nxt.append((q, r[:-1]))
                            continue
                        items, empty = expand_back(self.ip, r)
                        alts = list(dict.fromkeys(x for _, x in items))
                        if empty:
                            alts.append(())
                        for k, x in enumerate(alts):
                            nxt.append((q.copy() if k < len(alts) - 1 else q, x))
                    outs = nxt
                    if len(outs) > 300:
                        raise Imprecise("long slice")
            else:
                res = []
                n = max(0, h - (l or 0))
                for q, r in outs:
                    cur = [(q, r, ())]
                    for _ in range(n):
                        nx = []
                        for x, rest, got in cur:
                            if rest and rest[0][0] == "E":
                                nx.append((x, rest[1:], got + (rest[0],)))
                                continue
                            items, empty = expand(self.ip, rest)
                            if empty:
                                nx.append((x.copy(), (), got))
                            for y, v, r2, _i in take(self.ip, x, items) if items else []:
                                nx.append((y, r2, got + (("E", v),)))
                        cur = nx
                        if len(cur) > 300:
                            raise Imprecise("long slice")
                    res.extend((x, got) for x, _, got in cur)
                outs = res
        return outs

    def str_slice(self, st, o, lo, hi):
        ps = spieces(st, o)
        out = [(st, list(ps))]
        if type(hi) is Pos:
            if hi.src != ps:
                raise Imprecise("position in another string")
            if hi.off != 0:
                raise Imprecise("offset slice end")
            if lo in (NONE, K(0)):
                return [(st, mkS(st, list(hi.before)))]
            raise Imprecise("slice from both sides")
        if type(lo) is Pos:
            if lo.src != ps:
                raise Imprecise("position in another string")
            if hi != NONE:
                raise Imprecise("slice from both sides")
            if lo.off < 0:
                raise Imprecise("negative offset")
            r = strs.drop_chars(self.ip, st, list(lo.after), lo.off)
            return [(st, mkS(st, r))]
        if type(lo) is K and type(hi) is K and lo.v in (None, 0) and hi.v is None:
            return [(st, o)]
        if type(lo) is K and hi == NONE and isinstance(lo.v, int) and lo.v > 0:
            outs = []
            for fl in strs.flatten(ps):
                cur = [(st.copy(), tuple(fl), lo.v)]
                while cur:
                    q, r, k = cur.pop()
                    if k == 0 or not r:
                        outs.append((q, mkS(q, list(r))))
                        continue
                    items, empty = expand(self.ip, r)
                    if empty:
                        outs.append((q.copy(), EMPTY))
                    for x, v, r2, _ in take(self.ip, q, items) if items else []:
                        a, b = strs.vlen(x, v)
                        if a == b and a <= k:
                            cur.append((x, r2, k - a))
                        elif a > k:
                            for y, w in strs.smap(self.ip, x, v, lambda z, k=k: z[k:], None):
                                outs.append((y, mkS(y, [("E", w)] + list(r2))))
                        else:
                            raise Imprecise("string slice")
            return outs
        raise Imprecise("string slice")

    def slice_step(self, st, o, lo, hi, step):
        if type(step) is K and step.v == -1 and lo == NONE and hi == NONE:
            if type(o) is Ref and type(self.ip.get(st, o.id)) is Lst:
                return [(st, self.ip.alloc(st, Lst(self.rev(self.ip.get(st, o.id).pieces))))]
        if type(o) in (K, Rel) and all(st.const(x)[0] for x in (lo, hi, step)):
            k = tuple(st.const(x)[1] for x in (lo, hi, step))
            return self.pw2(st, o, K(k), lambda a, b: a[b[0]:b[1]:b[2]])
        if type(o) is Ref and all(type(x) is K for x in (lo, hi, step)):
            rec = self.ip.get(st, o.id)
            if type(rec) is Lst and all(p[0] == "E" for p in rec.pieces):
                return [(st, self.ip.alloc(st, Lst(rec.pieces[lo.v:hi.v:step.v])))]
            if type(rec) is Lst and hi == NONE and lo.v in (0, 1, None) and step.v and step.v > 1:
                return self.every(st, rec.pieces, lo.v or 0, step.v)
        raise Imprecise("extended slice")

    def every(self, st, ps, first, n):
        """Elements first, first+n, ... of a list."""
        def step(k, lab):
            return [(None, (k + 1) % n, [lab] if k == 0 else [])]
        out = []
        for q, r in strs.transduce(self.ip, st, tuple(ps), (-first) % n, step, lambda ts: [], True):
            out.append((q, self.ip.alloc(q, Lst(r))))
        return out

    def rev(self, ps):
        out = []
        for p in reversed(ps):
            if p[0] == "P":
                _, g, a, b = p
                if g.dyn is not None:
                    g.dyn.note_read(g, a, b)
                h = Graph()
                live = g.reaches(b) & g.forward(a)
                m = {n: h.node() for n in sorted(live)}
                for n in live:
                    for lab, d in g.out[n]:
                        if d in live:
                            h.add(m[d], lab, m[n])
                p = ("P",) + freeze(h, m[b], m[a])
            out.append(p)
        return tuple(out)

    def list_pop(self, st, o, i):
        ip = self.ip
        rec = ip.get(st, o.id)
        ps = rec.pieces
        if type(i) is not K:
            raise Imprecise("pop index")
        k = i.v
        if all(p[0] == "E" for p in ps):
            if not -len(ps) <= k < len(ps):
                ip.throw(st, "IndexError")
                return []
            v = ps[k][1]
            k = k % len(ps)
            ip.set(st, o.id, Lst(ps[:k] + ps[k + 1:], rec.kind))
            return [(st, v)]
        out = []
        if k == 0:
            items, empty = expand(ip, ps)
            if empty:
                ip.throw(st.copy(), "IndexError")
            for q, v, rest, _ in take(ip, st, items) if items else []:
                ip.set(q, o.id, Lst(rest, rec.kind))
                out.append((q, v))
            return out
        if k < 0:
            for q, v, before, after in self.index_back(st, ps, -k):
                ip.set(q, o.id, Lst(tuple(before) + tuple(after), rec.kind))
                out.append((q, v))
            return out
        raise Imprecise("pop(%d)" % k)

    # ------------------------------------------------------------------ methods
    def method(self, st, o, name):
        t = type(o)
        if t is K:
            if name.startswith("__") and name not in ("__contains__", "__getitem__", "__len__", "__name__"):
                raise Imprecise("attribute %s" % name)
            if not hasattr(o.v, name):
                self.ip.throw(st, "AttributeError")
                return []
            a = getattr(o.v, name)
            if callable(a):
                return [(st, Meth(o, name))]
            if isinstance(a, dict):
                return [(st, self.ip.alloc(st, Dct({k: K(x) for k, x in a.items()})))]
            return [(st, K(a))]
        if t is Rel:
            u, m = st.ins[o.inst]
            bad = 0
            for i in bits(m):
                if not hasattr(o.tab[i], name):
                    bad |= 1 << i
            if bad:
                q = st.copy()
                q.ins[o.inst] = (u, bad)
                self.ip.throw(q, "AttributeError")
                if bad == m:
                    return []
                st.ins[o.inst] = (u, m & ~bad)
            w = next(bits(st.ins[o.inst][1]))
            if callable(getattr(o.tab[w], name)):
                return [(st, Meth(o, name))]
            return [(st, self.rel_map(st, o, lambda x: getattr(x, name)))]
        if t in (S, IS):
            if not hasattr("", name):
                self.ip.throw(st, "AttributeError")
                return []
            return [(st, Meth(o, name))]
        if t is N:
            if not hasattr(0, name):
                self.ip.throw(st, "AttributeError")
                return []
            return [(st, Meth(o, name))]
        if t is Ref:
            rec = self.ip.get(st, o.id)
            real = {"list": list, "iter": iter, "deque": __import__("collections").deque}.get(rec.kind) \
                if type(rec) is Lst else \
                {Dct: dict, SetR: set}.get(type(rec))
            if type(rec) is Dct and rec.kind == "Counter":
                real = __import__("collections").Counter
            if real is iter:
                if name in ("__next__", "send", "close"):
                    return [(st, Meth(o, name))]
                self.ip.throw(st, "AttributeError")
                return []
            if real is not None:
                if not hasattr(real, name):
                    self.ip.throw(st, "AttributeError")
                    return []
                return [(st, Meth(o, name))]
        if t is Tup:
            return [(st, Meth(o, name))]
        if t is Bi:
            if o.obj is not None and hasattr(o.obj, name):
                a = getattr(o.obj, name)
                if isinstance(a, (int, str)):
                    return [(st, K(a))]
                return [(st, Bi(o.name + "." + name, a))]
            if name in ("cache_clear", "cache_info"):
                return [(st, Bi("noop"))]
        if t is Part and name in ("cache_clear",):
            return [(st, Bi("noop"))]
        if t is Sym:
            return [(st, Meth(o, name))]
        raise Imprecise("attribute %s of %r" % (name, o))

    def inherited(self, st, rec, o, name):
        """Methods an instance inherits from a builtin base class."""
        return None

    def call(self, st, f, args, kw):
        if isinstance(f, Meth):
            return self.call_meth(st, f.recv, f.name, args, kw)
        if isinstance(f, Bi):
            return self.call_bi(st, f, args, kw)
        if isinstance(f, K) and callable(f.v):
            return self.fold(st, f.v, args, kw, "callable")
        if isinstance(f, Rel):
            raise NeedPW_(f.inst)
        if isinstance(f, Part):
            return self.call_part(st, f, args, kw)
        if isinstance(f, K) or isinstance(f, (N, IS, S, Tup)):
            self.ip.throw(st, "TypeError")
            return []
        raise Imprecise("call of %r" % (f,))

    def call_part(self, st, f, args, kw):
        if isinstance(f.fn, Bi):
            n = f.fn.name
            if n == "operator.itemgetter":
                if len(f.args) == 1:
                    return self.subscript(st, args[0], f.args[0])
                outs = [(st, [])]
                for a in f.args:
                    outs = [(q2, vs + [v]) for q, vs in outs for q2, v in self.subscript(q, args[0], a)]
                return [(q, Tup(vs)) for q, vs in outs]
            if n == "operator.attrgetter":
                return self.ip.getattr(st, args[0], f.args[0].v)
            if n == "operator.methodcaller":
                out = []
                for q, m in self.ip.getattr(st, args[0], f.args[0].v):
                    out.extend(self.ip.call(q, m, list(f.args[1:]), dict(f.kw)))
                return out
            if n == "lru_cache":
                return self.decorate(st, Bi("functools.cache"), args[0])
            if n == "partial":
                return self.ip.call(st, f.args[0], list(f.args[1:]) + list(args), {**dict(f.kw), **kw})
            if n == "exception":
                pass
            if n == "wraps":
                return [(st, args[0])]
        raise Imprecise("call of %r" % (f,))

    def fold(self, st, fn, args, kw, name):
        """A pure function on constants, or word by word."""
        inst = None
        vs = list(args) + list(kw.values())
        for v in vs:
            if type(v) is Rel and not st.const(v)[0]:
                if inst is not None and inst != v.inst:
                    return None
                inst = v.inst
            elif type(v) not in (K, Rel):
                ok, c = st.const(v)
                if not ok:
                    if type(v) is Ref and self.plain(st, v) is not None:
                        continue
                    return None
        names = list(kw)

        def conv(v, w):
            if type(v) is Rel:
                if w is not None and v.inst == inst:
                    return v.tab[w]
                return st.const(v)[1]
            if type(v) is Ref:
                return self.plain(st, v)
            return st.const(v)[1]

        def run(w):
            xs = [conv(v, w) for v in vs]
            return fn(*xs[:len(args)], **dict(zip(names, xs[len(args):])))
        ok_types = (int, str, float, bool, type(None), tuple, frozenset, bytes, complex, type, range, re.Pattern,
                    re.Match, slice)

        def wrap(q, r):
            if isinstance(r, ok_types):
                return K(r)
            if isinstance(r, list):
                return self.ip.alloc(q, Lst([("E", wrap(q, x)) for x in r]))
            if isinstance(r, dict):
                return self.ip.alloc(q, Dct({k: wrap(q, x) for k, x in r.items()}))
            if isinstance(r, (set,)):
                return self.ip.alloc(q, SetR(r))
            if hasattr(r, "__next__"):
                return self.ip.alloc(q, Lst([("E", wrap(q, x)) for x in r], "iter"))
            return K(r)
        if inst is None:
            try:
                r = run(None)
            except Exception as e:
                self.ip.throw(st, type(e).__name__, *[K(a) for a in e.args if isinstance(a, (str, int))])
                return []
            rel = next((v for v in vs if type(v) is Rel), None)
            if isinstance(r, str) and rel is not None:
                u, m = st.ins[rel.inst]
                tab = [None] * len(u.words)
                for i in bits(m):
                    tab[i] = r
                return [(st, Rel(rel.inst, intern_tab(tab)))]
            return [(st, wrap(st, r))]
        u, m = st.ins[inst]
        tab = [None] * len(u.words)
        good, bad, forks = 0, {}, []
        for w in bits(m):
            try:
                r = run(w)
            except Exception as e:
                bad[type(e).__name__] = bad.get(type(e).__name__, 0) | 1 << w
                continue
            if hasattr(r, "__next__"):
                r = list(r)
            if isinstance(r, (list, dict, set)):
                forks.append((w, r))
                continue
            tab[w] = r
            good |= 1 << w
        out = []
        for n, mask in bad.items():
            q = st.copy()
            q.ins[inst] = (u, mask)
            self.ip.throw(q, n)
        if forks:
            # same shape: keep it one list with word-dependent elements
            if not good and all(isinstance(r, list) for _, r in forks):
                shapes = {}
                for w, r in forks:
                    shapes.setdefault(len(r), []).append((w, r))
                for n, items in shapes.items():
                    q = st.copy()
                    mask = 0
                    for w, _ in items:
                        mask |= 1 << w
                    q.ins[inst] = (u, mask)
                    ps = []
                    for k in range(n):
                        tb = [None] * len(u.words)
                        for w, r in items:
                            tb[w] = r[k]
                        ps.append(("E", Rel(inst, intern_tab(tb))))
                    out.append((q, self.ip.alloc(q, Lst(ps))))
                return out
            for w, r in forks:
                q = st.copy()
                q.ins[inst] = (u, 1 << w)
                out.append((q, wrap(q, r)))
        if good:
            st.ins[inst] = (u, good)
            out.append((st, self.ip.mkrel(st, inst, tab)))
        return out

    def plain(self, st, v):
        """A container of constants as a Python object, or None."""
        rec = self.ip.get(st, v.id)
        if type(rec) is Lst and all(p[0] == "E" and type(p[1]) is K for p in rec.pieces):
            return [p[1].v for p in rec.pieces]
        if type(rec) is Dct and all(type(x) is K for x in rec.d.values()):
            return {k: x.v for k, x in rec.d.items()}
        if type(rec) is SetR and not rec.weak:
            return set(rec.s)
        return None

    STR_MAP = {"lower", "upper", "casefold", "title", "swapcase", "translate", "replace", "expandtabs"}

    def call_meth(self, st, o, name, args, kw):
        ip = self.ip
        t = type(o)
        if t in (K, Rel):
            c0 = o.v if t is K else st.const(o)[1] if st.const(o)[0] else o.tab[next(bits(st.ins[o.inst][1]))]
            if isinstance(c0, str):
                r = self.str_meth(st, o, name, args, kw)
                if r is not None:
                    return r
                r = self.fold(st, lambda s, *a, **k: getattr(s, name)(*a, **k), [o] + list(args), kw, name)
                if r is not None:
                    return r
                if name in ("startswith", "endswith", "find", "index", "count", "replace") and \
                        any(type(a) is Rel for a in args):
                    raise NeedPW_(next(a.inst for a in args if type(a) is Rel))
                raise Imprecise("str.%s" % name)
            if isinstance(c0, re.Pattern):
                if t is K:
                    return self.re_call(st, name, [o] + list(args), kw)
                raise NeedPW_(o.inst)
            if t is Rel and isinstance(c0, re.Match):
                r = self.fold(st, lambda s, *a, **k: getattr(s, name)(*a, **k), [o] + list(args), kw, name)
                if r is not None:
                    return r
            r = self.fold(st, lambda s, *a, **k: getattr(s, name)(*a, **k), [o] + list(args), kw, name)
            if r is not None:
                return r
            raise Imprecise("%s.%s" % (type(c0).__name__, name))
        if t in (S, IS):
            return self.str_meth2(st, o, name, args, kw)
        if t is N:
            if name == "__str__":
                return self.to_str(st, o)
            raise Imprecise("int.%s" % name)
        if t is Tup:
            if name == "count" or name == "index":
                r = ip.alloc(st, Lst([("E", x) for x in o.items]))
                return self.list_meth(st, r, name, args, kw)
        if t is Ref:
            rec = ip.get(st, o.id)
            if type(rec) is Lst:
                return self.list_meth(st, o, name, args, kw)
            if type(rec) is Dct:
                return self.dict_meth(st, o, name, args, kw)
            if type(rec) is SetR:
                return self.set_meth(st, o, name, args, kw)
        if t is Sym:
            raise Imprecise("method %s of an unknown" % name)
        raise Imprecise("method %s of %r" % (name, o))

    def str_meth(self, st, o, name, args, kw):
        """Methods of word-valued strings that need more than folding."""
        if name == "join":
            out = []
            for q, ps in self.pieces(st, args[0]):
                self.consume(q, args[0])
                if type(o) is Rel:
                    ok, c = q.const(o)
                    if not ok:
                        raise NeedPW_(o.inst)
                    o = K(c)
                for p in ps:
                    if p[0] == "E" and not self.isstr(q, p[1]):
                        if type(p[1]) in (N, K, Ref, Tup) or (type(p[1]) is Rel and q.const(p[1])[0]):
                            ip = self.ip
                            ip.throw(q, "TypeError")
                            break
                        if type(p[1]) is Rel:
                            raise NeedPW_(p[1].inst)
                        raise Imprecise("join of %r" % (p[1],))
                else:
                    out.extend(strs.sjoin(self.ip, q, o, ps))
            return out
        if name == "format" and type(o) is K:
            if all(type(a) is K for a in args) and all(type(a) is K for a in kw.values()):
                return None
            parts = re.split(r"(\{\w*\})", o.v)
            if any("{" in p or "}" in p for p in parts[::2]):
                raise Imprecise("format string")
            auto = iter(args)
            outs = [(st, [])]
            for i, p in enumerate(parts):
                if i % 2 == 0:
                    if p:
                        outs = [(q, l + [("E", K(p))]) for q, l in outs]
                    continue
                key = p[1:-1]
                v = next(auto) if key == "" else (args[int(key)] if key.isdigit() else kw[key])
                outs = [(q2, l + [("E", s)]) for q, l in outs for q2, s in self.to_str(q, v)]
            return [(q, mkS(q, l)) for q, l in outs]
        if name in ("__contains__",):
            return self.contains(st, o, args[0], False)
        if name == "__len__":
            return self.call_bi(st, Bi("len"), [o], {})
        return None

    def const_args(self, st, args):
        out = []
        for a in args:
            ok, c = st.const(a)
            if not ok:
                if type(a) is Ref and self.plain(st, a) is not None:
                    out.append(self.plain(st, a))
                    continue
                raise Imprecise("abstract argument of a string method")
            out.append(c)
        return out

    def str_meth2(self, st, o, name, args, kw):
        """Methods of composite strings."""
        ip = self.ip
        if name == "join":
            raise Imprecise("join with an abstract separator")
        if kw:
            if name == "split" and "maxsplit" in kw:
                args = list(args) + ([NONE] if not args else []) + [kw["maxsplit"]]
                if "sep" in kw:
                    args = [kw["sep"], kw["maxsplit"]]
            else:
                raise Imprecise("keyword arguments of str.%s" % name)
        cs = self.const_args(st, args)
        if name in ("lower", "casefold", "upper", "swapcase", "title", "translate"):
            return strs.smap(ip, st, o, lambda w: getattr(w, name)(*cs), (name, repr(cs)))
        if name == "replace":
            a = cs[0]
            if len(a) != 1:
                # could a match straddle two words?
                if not self.local_needle(st, o, a):
                    raise Imprecise("replacement across words")
            return strs.smap(ip, st, o, lambda w: w.replace(*cs), ("replace", repr(cs)))
        if name in ("strip", "lstrip", "rstrip"):
            return strs.sstrip(ip, st, o, name != "rstrip", name != "lstrip", cs[0] if cs else None)
        if name in ("isdecimal", "isdigit", "isnumeric", "isalpha", "isalnum", "isspace", "isascii", "isupper",
                    "islower", "isidentifier", "isprintable", "istitle"):
            lo, hi = strs.slen(st, o)
            if name in ("isupper", "islower", "istitle", "isidentifier"):
                raise Imprecise("str.%s" % name)
            empty_val = name in ("isascii", "isprintable")
            r = strs.all_atoms(ip, st, o, lambda w: getattr(w, name)())
            if r == {True}:
                if lo > 0 or empty_val:
                    return [(st, TRUE)]
                if hi == 0:
                    return [(st, FALSE)]
            elif r == {False}:
                if lo > 0:
                    return [(st, FALSE)]
            elif r == {True, False}:
                # can a whole string be made of satisfying atoms only?
                ok_all = self.only_atoms(st, o, lambda w: getattr(w, name)())
                if ok_all is False and lo > 0:
                    return [(st, FALSE)]
            q = st.copy()
            q.flag("fork")
            st.flag("fork")
            if name == "isdecimal":
                q.facts = q.facts + (("decimal", spieces(st, o)),)
            return [(q, TRUE), (st, FALSE)]
        if name in ("find", "index"):
            if len(cs) != 1:
                raise Imprecise("find with bounds")
            out = []
            src = spieces(st, o)
            hits = strs.sfind(ip, st, o, cs[0])
            for q, h in hits:
                if len(hits) > 1:
                    q.flag("fork")
                if h is None:
                    if name == "index":
                        ip.throw(q, "ValueError")
                    else:
                        out.append((q, K(-1)))
                    continue
                before, atom, off, after = h
                out.append((q, self.mkpos(q, src, before, atom, off, after)))
            return out
        if name in ("partition", "split") and cs and cs[0] is not None and (name == "partition" or len(cs) == 2 and cs[1] == 1):
            out = []
            hits = strs.sfind(ip, st, o, cs[0])
            for q, h in hits:
                if len(hits) > 1:
                    q.flag("fork")
                if h is None:
                    if name == "partition":
                        out.append((q, Tup([o, EMPTY, EMPTY])))
                    else:
                        out.append((q, ip.alloc(q, Lst([("E", o)]))))
                    continue
                p = self.mkpos(q, spieces(st, o), *h)
                bef = mkS(q, list(p.before))
                aft = mkS(q, list(strs.drop_chars(ip, q, list(p.after), len(cs[0]))))
                if name == "partition":
                    out.append((q, Tup([bef, K(cs[0]), aft])))
                else:
                    out.append((q, ip.alloc(q, Lst([("E", bef), ("E", aft)]))))
            return out
        if name == "split":
            if not cs or cs[0] is None:
                if len(cs) == 2:
                    raise Imprecise("split with maxsplit")
                return [(q, ip.alloc(q, Lst(ps))) for q, ps in strs.ssplit(ip, st, o, None, "ws")]
            if len(cs[0]) == 1 and len(cs) == 1:
                return [(q, ip.alloc(q, Lst(ps))) for q, ps in
                        strs.ssplit(ip, st, o, re.compile(re.escape(cs[0])), "split")]
            raise Imprecise("str.split(%r)" % (cs,))
        if name in ("startswith", "endswith"):
            return self.affix(st, o, name, cs)
        if name == "count":
            raise Imprecise("str.count")
        if name == "encode":
            return [(st, Sym("bytes"))]
        if name == "__len__":
            return self.call_bi(st, Bi("len"), [o], {})
        raise Imprecise("str.%s on a composite string" % name)

    def mkpos(self, st, src, before, atom, off, after):
        if off == 0:
            return Pos(tuple(src), tuple(before), (("E", atom),) + tuple(after), 0)
        a = strs.smap(self.ip, st, atom, lambda w: w[:off], None)
        b = strs.smap(self.ip, st, atom, lambda w: w[off:], None)
        if len(a) != 1 or len(b) != 1:
            raise Imprecise("find inside words")
        return Pos(tuple(src), tuple(before) + (("E", a[0][1]),), (("E", b[0][1]),) + tuple(after), 0)

    def only_atoms(self, st, o, f):
        """Can the string consist of satisfying atoms only?"""
        for ps in strs.flatten(spieces(st, o)):
            ok = True
            for p in ps:
                if p[0] == "E":
                    if not any(c for c, _ in strs.classify(st, p[1], f)):
                        ok = False
                else:
                    _, g, a, b = p
                    seen, todo = {a}, [a]
                    while todo:
                        n = todo.pop()
                        for lab, m in g.out[n]:
                            if m not in seen and any(c for c, _ in strs.classify(strs.lab_state(lab), lab.val, f)):
                                seen.add(m)
                                todo.append(m)
                    if b not in seen:
                        ok = False
            if ok:
                return True
        return False

    def local_needle(self, st, o, a):
        """True when no occurrence of the constant a can lie across two atoms of o."""
        suf = {a[:i] for i in range(1, len(a))}
        def ends(w):
            return any(w.endswith(x) for x in suf) or (w in a)
        r = strs.all_atoms(self.ip, st, o, ends)
        if r == {False}:
            return True
        pre = {a[i:] for i in range(1, len(a))}
        r2 = strs.all_atoms(self.ip, st, o, lambda w: any(w.startswith(x) for x in pre) or (w in a))
        if r2 == {False}:
            return True
        # precise: run the search on the path
        try:
            strs.sfind(self.ip, st.copy(), o, a)
            return True
        except Imprecise:
            return False

    def affix(self, st, o, name, cs):
        needle = cs[0]
        if not isinstance(needle, (str, tuple)):
            raise Imprecise("affix")
        needles = (needle,) if isinstance(needle, str) else needle
        res = set()
        for ps in strs.flatten(spieces(st, o)):
            items, empty = (expand if name == "startswith" else expand_back)(self.ip, ps)
            if empty:
                res.add(any(n == "" for n in needles))
            for it, rest in items:
                if it[0] == "E":
                    q, v = st, it[1]
                else:
                    q, v = strs.lab_state(it[1]), it[1].val
                for c, _ in strs.classify(q, v, lambda w: (any(getattr(w, name)(n) for n in needles),
                                                          all(len(w) >= len(n) for n in needles))):
                    if c[0]:
                        res.add(True)
                    elif c[1]:
                        res.add(False)
                    else:
                        raise Imprecise("affix longer than a word")
        if len(res) == 1:
            return [(st, K(res.pop()))]
        out = []
        for b in res:
            q = st.copy()
            q.flag("fork")
            out.append((q, K(b)))
        return out

    # -- lists
    def list_meth(self, st, o, name, args, kw):
        ip = self.ip
        rec = ip.get(st, o.id)
        ps = rec.pieces
        if name in ("append", "add"):
            ip.set(st, o.id, Lst(ps + (("E", args[0]),), rec.kind))
            return [(st, NONE)]
        if name == "appendleft":
            ip.set(st, o.id, Lst((("E", args[0]),) + ps, rec.kind))
            return [(st, NONE)]
        if name == "extend":
            return [(q, NONE) for q in self.list_extend(st, o, args[0])]
        if name == "insert":
            if args[0] == K(0):
                ip.set(st, o.id, Lst((("E", args[1]),) + ps, rec.kind))
                return [(st, NONE)]
            if type(args[0]) is K and all(p[0] == "E" for p in ps):
                l = list(ps)
                l.insert(args[0].v, ("E", args[1]))
                ip.set(st, o.id, Lst(l, rec.kind))
                return [(st, NONE)]
            if args[0] == K(-1):
                out = []
                for q, v, before, after in self.index_back(st, ps, 1):
                    ip.set(q, o.id, Lst(tuple(before) + (("E", args[1]), ("E", v)) + tuple(after), rec.kind))
                    out.append((q, NONE))
                return out
            raise Imprecise("insert position")
        if name == "pop":
            return self.list_pop(st, o, args[0] if args else K(-1))
        if name == "popleft":
            return self.list_pop(st, o, K(0))
        if name == "clear":
            ip.set(st, o.id, Lst((), rec.kind))
            return [(st, NONE)]
        if name == "copy":
            return [(st, ip.alloc(st, Lst(ps, rec.kind)))]
        if name == "reverse":
            ip.set(st, o.id, Lst(self.rev(ps), rec.kind))
            return [(st, NONE)]
        if name == "count":
            return self.count(st, ps, lambda q, v: [(y, b) for z, r in self.compare(q, "Eq", v, args[0])
                                                    for y, b in self.truth(z, r)])
        if name == "index":
            if all(p[0] == "E" for p in ps):
                out, cur = [], [st]
                for i, p in enumerate(ps):
                    nxt = []
                    for q in cur:
                        for q2, r in self.compare(q, "Eq", p[1], args[0]):
                            for q3, b in self.truth(q2, r):
                                if b:
                                    out.append((q3, K(i)))
                                else:
                                    nxt.append(q3)
                    cur = nxt
                for q in cur:
                    ip.throw(q, "ValueError")
                return out
            raise Imprecise("list.index")
        if name == "sort":
            if all(p[0] == "E" and type(p[1]) is K for p in ps) and not kw:
                try:
                    ip.set(st, o.id, Lst([("E", K(x)) for x in sorted(p[1].v for p in ps)], rec.kind))
                    return [(st, NONE)]
                except TypeError:
                    pass
            raise Imprecise("list.sort")
        if name == "__next__":
            return self.call_bi(st, Bi("next"), [o], {})
        if name == "__len__":
            return self.call_bi(st, Bi("len"), [o], {})
        if name == "remove":
            if all(p[0] == "E" for p in ps):
                out, cur = [], [st]
                for i, p in enumerate(ps):
                    nxt = []
                    for q in cur:
                        for q2, r in self.compare(q, "Eq", p[1], args[0]):
                            for q3, b in self.truth(q2, r):
                                if b:
                                    ip.set(q3, o.id, Lst(ps[:i] + ps[i + 1:], rec.kind))
                                    out.append((q3, NONE))
                                else:
                                    nxt.append(q3)
                    cur = nxt
                for q in cur:
                    ip.throw(q, "ValueError")
                return out
        raise Imprecise("list.%s" % name)

    def count(self, st, ps, pred):
        """Number of elements satisfying pred."""
        sym = None
        lo = hi = 0
        cur = [st]
        if all(p[0] == "E" for p in ps):
            out = []
            cur = [(st, 0)]
            for p in ps:
                nxt = []
                for q, n in cur:
                    for q2, b in pred(q, p[1]):
                        nxt.append((q2, n + (1 if b else 0)))
                cur = nxt
                if len(cur) > 400:
                    raise Imprecise("count over many words")
            return [(q, K(n)) for q, n in cur]
        return [self.path_count(st, ps, pred)]

    def path_count(self, st, ps, pred):
        lo, hi = 0, 0
        h = self.ip.handlers.get("count")
        if h is not None:
            r = h(st, ps, pred)
            if r is not None:
                return r
        for p in ps:
            if p[0] == "E":
                bs = {b for _, b in pred(st.copy(), p[1])}
                lo += 0 if False in bs else 1
                hi = hi if hi is None or True not in bs else hi + 1
                continue
            _, g, a, b = p
            if g.dyn is not None:
                g.dyn.note_read(g, a, b)
            live = g.reaches(b) & g.forward(a)
            w = {}
            for n in live:
                for lab, m in g.out[n]:
                    if m in live and lab not in w:
                        q = st.copy()
                        v, _ = inst_lab(q, lab)
                        w[lab] = {x for _, x in pred(q, v)}
            # shortest number of sure hits; longest of possible ones (None when in a cycle)
            import heapq as hq
            dist = {a: 0}
            heap = [(0, a)]
            while heap:
                d, n = hq.heappop(heap)
                if d > dist.get(n, 1 << 60):
                    continue
                for lab, m in g.out[n]:
                    if m in live:
                        nd = d + (0 if False in w[lab] else 1)
                        if nd < dist.get(m, 1 << 60):
                            dist[m] = nd
                            hq.heappush(heap, (nd, m))
            lo += dist.get(b, 0)
            best = {a: 0}
            todo = [a]
            steps = 0
            unb = False
            cap = len(live) + 1
            while todo:
                n = todo.pop()
                steps += 1
                for lab, m in g.out[n]:
                    if m in live:
                        nd = best[n] + (1 if True in w[lab] else 0)
                        if nd > best.get(m, -1):
                            if nd > cap:
                                unb = True
                                break
                            best[m] = nd
                            todo.append(m)
                if unb or steps > 200000:
                    unb = True
                    break
            hi = None if hi is None or unb else hi + best.get(b, 0)
        return st, st.num(None, lo, hi)

    # -- dicts
    def dict_meth(self, st, o, name, args, kw):
        ip = self.ip
        rec = ip.get(st, o.id)
        d = rec.d
        wrap = lambda k: k if isinstance(k, V) else K(k)
        if name == "get":
            return self.dict_get(st, o, rec, args[0], args[1] if len(args) > 1 else NONE)
        if name == "__getitem__":
            return self.dict_get(st, o, rec, args[0], None)
        if name == "__contains__":
            return self.contains(st, o, args[0], False)
        if name == "keys":
            return [(st, ip.alloc(st, Lst([("E", wrap(k)) for k in d])))]
        if name == "values":
            return [(st, ip.alloc(st, Lst([("E", v) for v in d.values()])))]
        if name == "items":
            return [(st, ip.alloc(st, Lst([("E", Tup([wrap(k), v])) for k, v in d.items()])))]
        if name == "copy":
            return [(st, ip.alloc(st, Dct(dict(d), rec.const, rec.kind, rec.default)))]
        if name == "update":
            nd = dict(d)
            for a in args:
                r = ip.get(st, a.id) if type(a) is Ref else None
                if type(r) is Dct:
                    nd.update(r.d)
                else:
                    m = self.mkdict(st, self.pieces(st, a)[0][1])
                    if len(m) != 1:
                        raise Imprecise("dict.update")
                    nd.update(ip.get(st, m[0][1].id).d)
            nd.update(kw)
            ip.set(st, o.id, Dct(nd, None, rec.kind, rec.default))
            return [(st, NONE)]
        if name == "setdefault":
            out = []
            for q, c in self.concretize(st, args[0]):
                r = ip.get(q, o.id)
                if c in r.d:
                    out.append((q, r.d[c]))
                else:
                    v = args[1] if len(args) > 1 else NONE
                    ip.set(q, o.id, Dct({**r.d, c: v}, None, r.kind, r.default))
                    out.append((q, v))
            return out
        if name == "pop":
            out = []
            for q, c in self.concretize(st, args[0]):
                r = ip.get(q, o.id)
                if c in r.d:
                    nd = dict(r.d)
                    v = nd.pop(c)
                    ip.set(q, o.id, Dct(nd, None, r.kind, r.default))
                    out.append((q, v))
                elif len(args) > 1:
                    out.append((q, args[1]))
                else:
                    ip.throw(q, "KeyError")
            return out
        if name == "clear":
            ip.set(st, o.id, Dct({}, None, rec.kind, rec.default))
            return [(st, NONE)]
        if name == "most_common" and all(type(v) is K for v in d.values()):
            import collections
            r = collections.Counter({k: v.v for k, v in d.items()}).most_common(*[a.v for a in args])
            return [(st, ip.alloc(st, Lst([("E", K(x)) for x in r])))]
        if name == "__len__":
            return [(st, K(len(d)))]
        raise Imprecise("dict.%s" % name)

    def set_meth(self, st, o, name, args, kw):
        ip = self.ip
        rec = ip.get(st, o.id)
        if name == "add":
            try:
                out = []
                for q, c in self.concretize(st, args[0]):
                    r = ip.get(q, o.id)
                    if c not in r.s:
                        ip.set(q, o.id, SetR(r.s | {c}, False, r.weak))
                    out.append((q, NONE))
                return out
            except Imprecise:
                ip.set(st, o.id, SetR(rec.s, False, rec.weak or (Sym("anyof"),)))
                return [(st, NONE)]
        if name in ("update", "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
            sets = []
            for a in args:
                p = self.plain(st, a) if type(a) is Ref else (a.v if type(a) is K else None)
                if p is None or rec.weak:
                    raise Imprecise("set.%s" % name)
                sets.append(set(p))
            if name == "update":
                ip.set(st, o.id, SetR(rec.s.union(*sets)))
                return [(st, NONE)]
            r = getattr(rec.s, name)(*sets)
            if isinstance(r, bool):
                return [(st, K(r))]
            return [(st, ip.alloc(st, SetR(r)))]
        if name in ("discard", "remove") and not rec.weak:
            out = []
            for q, c in self.concretize(st, args[0]):
                r = ip.get(q, o.id)
                if c in r.s:
                    ip.set(q, o.id, SetR(r.s - {c}))
                elif name == "remove":
                    ip.throw(q, "KeyError")
                    continue
                out.append((q, NONE))
            return out
        if name == "copy":
            return [(st, ip.alloc(st, SetR(rec.s, False, rec.weak)))]
        if name == "clear":
            ip.set(st, o.id, SetR())
            return [(st, NONE)]
        raise Imprecise("set.%s" % name)

    # -- re
    def re_call(self, st, name, args, kw):
        """pattern.name(...): args[0] is the pattern."""
        ip = self.ip
        pv = args[0]
        ok, pat = st.const(pv)
        if not ok:
            raise NeedPW_(pv.inst) if type(pv) is Rel else Imprecise("abstract pattern")
        if isinstance(pat, str):
            fl = kw.pop("flags", None)
            pat = re.compile(pat, st.const(fl)[1] if fl is not None else 0)
        rest = list(args[1:])
        # which argument is the subject
        si = 1 if name in ("sub", "subn") else 0
        if "string" in kw:
            kw = dict(kw)
            rest.insert(si, kw.pop("string"))
        if len(rest) <= si:
            raise Imprecise("re.%s arguments" % name)
        subj = rest[si]
        if name == "sub" and isinstance(rest[0], (Fn, Bound, Meth, Bi, Part)):
            return self.re_sub_fn(st, pat, rest, kw)
        if type(subj) in (K, Rel) or st.const(subj)[0]:
            r = self.fold(st, lambda *a, **k: getattr(pat, name)(*a, **k), rest, kw, name)
            if r is not None:
                return r
            raise Imprecise("re.%s" % name)
        if kw or len(rest) > si + 1:
            raise Imprecise("re.%s options" % name)
        if type(subj) is IS or type(subj) is S:
            if name == "split":
                return [(q, ip.alloc(q, Lst(ps))) for q, ps in strs.ssplit(ip, st, subj, pat, "split")]
            if name == "findall":
                return [(q, ip.alloc(q, Lst(ps))) for q, ps in strs.ssplit(ip, st, subj, pat, "findall")]
            if name == "sub":
                w = strs.local_pattern(pat, None)
                rep = st.const(rest[0])
                if w == "1" and rep[0]:
                    return strs.smap(ip, st, subj, lambda x: pat.sub(rep[1], x), None)
                if w == "+" and rep == (True, ""):
                    return strs.smap(ip, st, subj, lambda x: pat.sub("", x), None)
                for ch in needed_chars(pat):
                    if not strs.all_atoms(ip, st, subj, lambda x: ch in x) - {False}:
                        return [(st, subj)]          # the pattern cannot match
                raise Imprecise("re.sub on a composite string")
            if name in ("search", "match", "fullmatch"):
                return self.re_test(st, subj, pat, name)
        if type(subj) is Sym:
            raise Imprecise("re on an unknown")
        if type(subj) is K and not isinstance(subj.v, str) or type(subj) is N:
            ip.throw(st, "TypeError")
            return []
        raise Imprecise("re.%s on %r" % (name, subj))

    def re_test(self, st, subj, pat, name):
        w = strs.local_pattern(pat, None)
        lo, hi = strs.slen(st, subj)
        if name == "search" and w is not None:
            r = strs.all_atoms(self.ip, st, subj, lambda x: pat.search(x) is not None)
            if r == {False}:
                return [(st, NONE)]
            if r == {True} and lo > 0:
                return [(st, Sym("match"))]
            can_none = self.only_atoms(st, subj, lambda x: pat.search(x) is None)
            if not can_none:
                return [(st, Sym("match"))]
            q = st.copy()
            q.flag("fork")
            st.flag("fork")
            return [(q, NONE), (st, Sym("match"))]
        if name == "fullmatch" and w == "+":
            all_ok = strs.all_atoms(self.ip, st, subj, lambda x: pat.fullmatch(x) is not None)
            if all_ok == {True} and lo > 0:
                return [(st, Sym("match"))]
            if not self.only_atoms(st, subj, lambda x: pat.fullmatch(x) is not None):
                return [(st, NONE)]
            q = st.copy()
            q.flag("fork")
            st.flag("fork")
            return [(q, NONE), (st, Sym("match"))]
        raise Imprecise("re.%s on a composite string" % name)

    def re_sub_fn(self, st, pat, rest, kw):
        f, subj = rest[0], rest[1]
        ok, s = st.const(subj)
        if not ok:
            if type(subj) is Rel:
                raise NeedPW_(subj.inst)
            raise Imprecise("re.sub with a function on a composite string")
        outs = [(st, [], 0)]
        for m in pat.finditer(s):
            nxt = []
            for q, ps, pos in outs:
                for q2, r in self.ip.call(q, f, [K(m)], {}):
                    nxt.append((q2, ps + [("E", K(s[pos:m.start()])), ("E", r)], m.end()))
            outs = nxt
        return [(q, mkS(q, ps + [("E", K(s[pos:]))])) for q, ps, pos in outs]

    # -- builtin functions
    def call_bi(self, st, f, args, kw):
        ip = self.ip
        n = f.name
        if n == "noop" or n == "object.__init__" or n.startswith("warnings.") or n.startswith("contextlib."):
            return [(st, NONE)]
        h = getattr(self, "bi_" + n.replace(".", "_"), None)
        if h is not None:
            r = h(st, args, kw)
            if r is not None:
                return r
        if n.startswith("re."):
            m = n[3:]
            if m == "compile":
                r = self.fold(st, re.compile, args, kw, n)
                if r is None:
                    raise Imprecise("abstract pattern")
                return r
            if m in ("split", "sub", "findall", "match", "search", "fullmatch", "subn", "finditer"):
                return self.re_call(st, m, list(args), dict(kw))
            r = self.fold(st, f.obj, args, kw, n)
            if r is not None:
                return r
        if n in EXC:
            return [(st, Part(f, args))]
        mod = n.rsplit(".", 1)[0] if "." in n else None
        if mod in EFFECT_MODULES or n in ("open", "input", "print", "exec", "eval", "__import__", "globals", "locals",
                                          "vars", "id", "hash", "compile", "breakpoint"):
            ip.event(st, "effect", n)
            if n in ("print",):
                return [(st, NONE)]
            if n == "hash" or n == "id":
                return [(st, st.num(None, None, None))]
            if mod in ("time", "random", "datetime"):
                return [(st, Sym("effect:" + n))]
            if n in ("globals",):
                raise Imprecise("globals()")
            return [(st, Sym("effect:" + n))]
        if mod == "unicodedata":
            if n == "unicodedata.normalize" and type(args[1]) in (S, IS) and type(args[0]) is K:
                import unicodedata
                form = args[0].v
                return strs.smap(ip, st, args[1], lambda w: unicodedata.normalize(form, w), ("norm", form))
            r = self.fold(st, f.obj, args, kw, n)
            if r is not None:
                return r
            raise Imprecise(n)
        if mod in ("operator",):
            opn = {"add": "Add", "sub": "Sub", "mul": "Mult", "floordiv": "FloorDiv", "mod": "Mod"}.get(n[9:])
            if opn:
                return self.binop(st, opn, args[0], args[1])
            cmpn = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is",
                    "is_not": "IsNot"}.get(n[9:])
            if cmpn:
                return self.compare(st, cmpn, args[0], args[1])
            if n == "operator.contains":
                return self.contains(st, args[0], args[1], False)
            if n == "operator.getitem":
                return self.subscript(st, args[0], args[1])
            if n == "operator.not_":
                return self.not_(st, args[0])
            if n == "operator.truth":
                return [(q, K(b)) for q, b in self.truth(st, args[0])]
            if n in ("operator.itemgetter", "operator.attrgetter", "operator.methodcaller"):
                return [(st, Part(f, args, tuple(kw.items())))]
        if mod == "typing" or mod == "collections.abc":
            if n == "typing.cast":
                return [(st, args[1])]
            if n == "typing.NamedTuple" or n == "collections.namedtuple":
                return self.namedtuple(st, args)
            return [(st, Sym("typing"))]
        if f.obj is not None and (n in NAMES or mod in PURE_MODULES or mod in ("str", "int", "dict", "list", "re")):
            if mod in ("str",) and args:
                return self.call_meth(st, args[0], n[4:], args[1:], kw)
            if mod in ("dict",) and n == "dict.fromkeys":
                out = []
                for q, ps in self.pieces(st, args[0]):
                    v = args[1] if len(args) > 1 else NONE
                    out.extend(self.mkdict(q, [("E", Tup([p[1], v])) for p in ps if p[0] == "E"])
                               if all(p[0] == "E" for p in ps) else self._imp("fromkeys"))
                return out
            r = self.fold(st, f.obj, args, kw, n)
            if r is not None:
                return r
        if ip.loading and mod not in (None,):
            return [(st, Sym("load:" + n))]
        raise Imprecise("call of %s" % n)

    def _imp(self, why):
        raise Imprecise(why)

    def bi_importlib_import_module(self, st, args, kw):
        ip = self.ip
        ok, name = st.const(args[0])
        if not ok:
            ip.event(st, "import-unknown", repr(args[0]))
            if type(args[0]) in (S, Sym):
                ip.throw(st, "ModuleNotFoundError")
                return []
            out = []
            for q, c in self.concretize(st, args[0]):
                out.extend(self.bi_importlib_import_module(q, [K(c)], kw))
            return out
        if name.startswith("."):
            pk = args[1] if len(args) > 1 else kw.get("package")
            base = st.const(pk)[1].split(".")
            dots = len(name) - len(name.lstrip("."))
            name = ".".join(base[:len(base) - (dots - 1)] + ([name.lstrip(".")] if name.lstrip(".") else []))
        if not (name == ip.package or name.startswith(ip.package + ".")):
            ip.event(st, "import", name)
        else:
            self.imports.add(name)
        m = self.import_module(st, name)
        if m is None:
            ip.throw(st, "ModuleNotFoundError")
            return []
        return [(st, m)]

    imports = set()

    def bi_pkgutil_get_data(self, st, args, kw):
        if self.ip.loading:
            return [(st, K(b"0"))]
        self.ip.event(st, "effect", "pkgutil.get_data")
        return [(st, Sym("bytes"))]

    def bi_getattr(self, st, args, kw):
        ok, name = st.const(args[1])
        if not ok:
            out = []
            for q, c in self.concretize(st, args[1]):
                out.extend(self.bi_getattr(q, [args[0], K(c)] + list(args[2:]), kw))
            return out
        if len(args) == 3:
            saved, self.ip.exc = self.ip.exc, []
            r = self.ip.getattr(st, args[0], name)
            miss = self.ip.exc
            self.ip.exc = saved
            for q, x in miss:
                if x.cls == "AttributeError":
                    r = list(r) + [(q, args[2])]
                else:
                    self.ip.exc.append((q, x))
            return r
        return self.ip.getattr(st, args[0], name)

    def bi_setattr(self, st, args, kw):
        ok, name = st.const(args[1])
        if not ok:
            raise Imprecise("setattr")
        return [(q, NONE) for q in self.ip.setattr(st, args[0], name, args[2])]

    def bi_hasattr(self, st, args, kw):
        saved, self.ip.exc = self.ip.exc, []
        r = self.ip.getattr(st, args[0], st.const(args[1])[1])
        miss = self.ip.exc
        self.ip.exc = saved
        return [(q, TRUE) for q, _ in r] + [(q, FALSE) for q, _ in miss]

    def bi_isinstance(self, st, args, kw):
        v, t = args
        types = []
        todo = [t]
        while todo:
            x = todo.pop()
            if type(x) is Tup:
                todo.extend(x.items)
            elif type(x) is K and isinstance(x.v, tuple):
                types.extend(x.v)
            elif type(x) is Bi and isinstance(x.obj, type):
                types.append(x.obj)
            elif type(x) is Ref:
                types.append(x)
            elif type(x) is K and isinstance(x.v, type):
                types.append(x.v)
            else:
                raise Imprecise("isinstance")
        pts = tuple(x for x in types if isinstance(x, type))
        if type(v) in (K, Rel):
            return self.pw2(st, v, K(pts), lambda a, b: isinstance(a, b))
        py = {N: int, IS: str, S: str, Tup: tuple, Pos: int, Sym: str}.get(type(v))
        if py is None and type(v) is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Obj:
                c = [rec.cls]
                while c:
                    k = c.pop()
                    if Ref(k) in types:
                        return [(st, TRUE)]
                    c.extend(b.id for b in self.ip.get(st, k).bases if type(b) is Ref)
                return [(st, FALSE)]
            py = {Lst: list, Dct: dict, SetR: set}.get(type(rec))
        if py is None:
            return [(st, FALSE)]
        return [(st, K(any(issubclass(py, x) for x in pts)))]

    def bi_callable(self, st, args, kw):
        return [(st, K(type(args[0]) in (Fn, Bound, Bi, Meth, Part)))]

    def bi_len(self, st, args, kw):
        v = args[0]
        t = type(v)
        if t in (K, Rel):
            return self.pw2(st, v, K(None), lambda a, b: len(a))
        if t in (S, IS):
            lo, hi = strs.slen(st, v)
            return [(st, st.num(None, lo, hi))]
        if t is Tup:
            return [(st, K(len(v.items)))]
        if t is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Lst:
                lo, hi = self.length(st, rec.pieces)
                if lo == hi:
                    return [(st, K(lo))]
                h = self.ip.handlers.get("len")
                if h is not None:
                    r = h(st, rec.pieces, lo, hi)
                    if r is not None:
                        return [r]
                return [(st, st.num(None, lo, hi))]
            if type(rec) is Dct:
                return [(st, K(len(rec.d)))]
            if type(rec) is SetR:
                if rec.weak:
                    return [(st, st.num(None, 1, None))]
                return [(st, K(len(rec.s)))]
            if type(rec) is Obj and rec.cls is not None:
                f = self.ip.cls_lookup(st, rec.cls, "__len__")
                if f is not None:
                    return self.ip.call(st, Bound(f, v), [], {})
        self.ip.throw(st, "TypeError")
        return []

    def bi_str(self, st, args, kw):
        if not args:
            return [(st, EMPTY)]
        return self.to_str(st, args[0])

    def bi_repr(self, st, args, kw):
        if type(args[0]) is N:
            return self.to_str(st, args[0])
        if type(args[0]) in (K, Rel):
            return None
        return [(st, Sym("text"))]

    def bi_int(self, st, args, kw):
        if not args:
            return [(st, K(0))]
        v = args[0]
        if type(v) is IS:
            return [(st, N(v.id))]
        if type(v) is N:
            return [(st, v)]
        if type(v) in (K, Rel):
            return None
        if type(v) is S:
            lo, hi = strs.slen(st, v)
            # digits only?
            r = strs.all_atoms(self.ip, st, v, lambda w: w.isdecimal())
            if r == {True} and lo > 0:
                return [(st, st.num(((("int", spieces(st, v)), 1),), 0, None))]
            bad = strs.all_atoms(self.ip, st, v, lambda w: w.strip() == "" or w.isdecimal() or w in "+-_")
            if bad == {False} and lo > 0:
                self.ip.throw(st, "ValueError")
                return []
            if ("decimal", spieces(st, v)) in st.facts:
                return [(st, st.num(None, 0, None))]
            q = st.copy()
            q.flag("fork")
            self.ip.throw(q, "ValueError")
            return [(st, st.num(None, None, None))]
        if type(v) is Sym:
            raise Imprecise("int of an unknown")
        self.ip.throw(st, "TypeError")
        return []

    def bi_bool(self, st, args, kw):
        if not args:
            return [(st, FALSE)]
        if type(args[0]) is Rel:
            return [(st, self.rel_map(st, args[0], bool))]
        return [(q, K(b)) for q, b in self.truth(st, args[0])]

    def bi_list(self, st, args, kw):
        if not args:
            return [(st, self.ip.alloc(st, Lst()))]
        out = []
        for q, ps in self.pieces(st, args[0]):
            self.consume(q, args[0])
            out.append((q, self.ip.alloc(q, Lst(ps))))
        return out

    def bi_iter(self, st, args, kw):
        v = args[0]
        if type(v) is Ref and type(self.ip.get(st, v.id)) is Lst and self.ip.get(st, v.id).kind == "iter":
            return [(st, v)]
        return [(q, self.ip.alloc(q, Lst(ps, "iter"))) for q, ps in self.pieces(st, v)]

    def bi_collections_deque(self, st, args, kw):
        if not args:
            return [(st, self.ip.alloc(st, Lst()))]
        return self.bi_list(st, args, kw)

    def bi_next(self, st, args, kw):
        o = args[0]
        rec = self.ip.get(st, o.id) if type(o) is Ref else None
        if type(rec) is not Lst or rec.kind != "iter":
            raise Imprecise("next")
        items, empty = expand(self.ip, rec.pieces)
        out = []
        if empty:
            q = st.copy()
            if len(args) > 1:
                out.append((q, args[1]))
            else:
                self.ip.throw(q, "StopIteration")
        if items:
            for q, v, rest, inst in take(self.ip, st, items):
                self.ip.set(q, o.id, Lst(rest, "iter"))
                out.append((q, v))
        return out

    def bi_tuple(self, st, args, kw):
        if not args:
            return [(st, Tup(()))]
        out = []
        for q, ps in self.pieces(st, args[0]):
            self.consume(q, args[0])
            if all(p[0] == "E" for p in ps):
                out.append((q, Tup([p[1] for p in ps])))
            else:
                out.append((q, self.ip.alloc(q, Lst(ps))))
        return out

    def bi_set(self, st, args, kw):
        if not args:
            return [(st, self.ip.alloc(st, SetR()))]
        out = []
        for q, ps in self.pieces(st, args[0]):
            out.extend(self.mkset(q, ps))
        return out

    bi_frozenset = bi_set

    def bi_dict(self, st, args, kw):
        if not args:
            return [(st, self.ip.alloc(st, Dct(dict(kw))))]
        a = args[0]
        if type(a) is Ref and type(self.ip.get(st, a.id)) is Dct:
            return [(st, self.ip.alloc(st, Dct({**self.ip.get(st, a.id).d, **kw})))]
        out = []
        for q, ps in self.pieces(st, a):
            for q2, r in self.mkdict(q, ps):
                if kw:
                    q2.heap[r.id] = Dct({**q2.heap[r.id].d, **kw})
                out.append((q2, r))
        return out

    bi_collections_OrderedDict = bi_dict

    def bi_collections_defaultdict(self, st, args, kw):
        return [(st, self.ip.alloc(st, Dct({}, None, "defaultdict", args[0] if args and args[0] != NONE else None)))]

    def bi_collections_Counter(self, st, args, kw):
        if not args:
            return [(st, self.ip.alloc(st, Dct({}, None, "Counter")))]
        out = []
        for q, ps in self.pieces(st, args[0]):
            if any(p[0] == "P" for p in ps):
                raise Imprecise("Counter")
            outs = [(q, {})]
            for p in ps:
                outs = [(q2, {**d, c: K(d.get(c, K(0)).v + 1)}) for x, d in outs for q2, c in self.concretize(x, p[1])]
            out.extend((x, self.ip.alloc(x, Dct(d, None, "Counter"))) for x, d in outs)
        return out

    def bi_range(self, st, args, kw):
        cs = [st.const(a) for a in args]
        if all(ok for ok, _ in cs):
            try:
                return [(st, K(range(*[c for _, c in cs])))]
            except TypeError:
                self.ip.throw(st, "TypeError")
                return []
        raise Imprecise("range of an unknown")

    def bi_reversed(self, st, args, kw):
        return [(q, self.ip.alloc(q, Lst(self.rev(ps), "iter"))) for q, ps in self.pieces(st, args[0])]

    def bi_enumerate(self, st, args, kw):
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        out = []
        for q, ps in self.pieces(st, args[0]):
            if all(p[0] == "E" for p in ps):
                out.append((q, self.ip.alloc(q, Lst([("E", Tup([K(start.v + i), p[1]])) for i, p in enumerate(ps)],
                                                    "iter"))))
            else:
                out.append(self.enum_path(q, ps, start))
        return out

    def enum_path(self, st, ps, start):
        """enumerate() of an abstract list: the index is known to be start or greater."""
        g = Graph()
        todo, seen = [], set()

        def node(k):
            if k not in seen:
                seen.add(k)
                todo.append(k)
            return g.node(k)
        A = node((tuple(ps), 0))
        end = g.node("end")
        nullable = False
        LIM = 3
        while todo:
            k = todo.pop()
            rest, i = k
            items, empty = expand(self.ip, rest)
            for it, r2 in items:
                lab = make_lab(st, it[1]) if it[0] == "E" else it[1]
                if i < LIM:
                    nl = Lab(Tup([K(start.v + i), lab.val]), lab.insts, lab.nums)
                else:
                    nl = Lab(Tup([N(len(lab.nums)), lab.val]), lab.insts, lab.nums + ((None, start.v + LIM, None),))
                j = min(i + 1, LIM)
                if self.can_end(r2):
                    g.add(g.node(k), nl, end)
                if not self.only_end(r2):
                    g.add(g.node(k), nl, node((r2, j)))
            if empty and i == 0:
                nullable = True
        if nullable:
            raise Imprecise("enumerate of a possibly empty list")
        return st, self.ip.alloc(st, Lst([("P",) + freeze(g, A, end)], "iter"))

    def can_end(self, ps):
        return expand(self.ip, ps)[1]

    def only_end(self, ps):
        return not expand(self.ip, ps)[0]

    def bi_zip(self, st, args, kw):
        outs = [(st, [])]
        for a in args:
            outs = [(q2, l + [ps]) for q, l in outs for q2, ps in self.pieces(q, a)]
        res = []
        for q, l in outs:
            if all(p[0] == "E" for ps in l for p in ps):
                n = min(len(ps) for ps in l) if l else 0
                res.append((q, self.ip.alloc(q, Lst([("E", Tup([ps[i][1] for ps in l])) for i in range(n)], "iter"))))
            else:
                res.extend(self.zip_path(q, l))
        return res

    def zip_path(self, st, l):
        """zip of abstract lists.  Elements with the same source word at the same place belong together."""
        g = Graph()
        todo, seen = [], set()

        def node(k):
            if k not in seen:
                seen.add(k)
                todo.append(k)
            return g.node(k)
        A = node(tuple(tuple(ps) for ps in l))
        end = g.node("end")
        nullable = False
        related = self.same_source(l)
        # a list zipped with its own tail
        while todo:
            k = todo.pop()
            alts = [((), k)]
            exps = [expand(self.ip, ps) for ps in k]
            if any(e for _, e in exps):
                if related and not all(e for _, e in exps):
                    pass
                if k == tuple(tuple(ps) for ps in l):
                    nullable = True
            combos = [([], [])]
            for items, _ in exps:
                combos = [(c + [it], r + [rest]) for c, r in combos for it, rest in items]
                if len(combos) > 5000:
                    raise Imprecise("zip")
            for c, r in combos:
                labs = [make_lab(st, it[1]) if it[0] == "E" else it[1] for it in c]
                if related:
                    us = [x.insts[0] if x.insts else None for x in labs]
                    if not all((u is None) == (us[0] is None) for u in us):
                        if not self.compatible(labs):
                            continue
                    if us[0] is not None and all(u is not None for u in us):
                        if any(u[0] != us[0][0] for u in us):
                            continue
                        m = us[0][1]
                        for u in us:
                            m &= u[1]
                        if not m:
                            continue
                        if any(len(x.insts) != 1 for x in labs):
                            raise Imprecise("zip of composites")
                        vals, nums = [], ()
                        for x in labs:
                            off = len(nums)
                            vals.append(map_val(x.val, lambda i: 0, lambda n, o=off: n + o, lambda r: r))
                            nums = nums + x.nums
                        nl = Lab(Tup(vals), [(us[0][0], m)], nums)
                    else:
                        nl = self.tuplab(labs)
                else:
                    nl = self.tuplab(labs)
                rk = tuple(r)
                ends = [self.can_end(x) for x in rk]
                if any(ends) and (not related or all(ends)):
                    g.add(g.node(k), nl, end)
                if not any(self.only_end(x) for x in rk):
                    g.add(g.node(k), nl, node(rk))
        q = st
        if not related:
            q.flag("zip")
        res = []
        if A in g.reaches(end):
            res.append((q, ("P",) + freeze(g, A, end)))
        out = [(x, self.ip.alloc(x, Lst([p], "iter"))) for x, p in res]
        if nullable:
            q2 = st.copy()
            out.append((q2, self.ip.alloc(q2, Lst((), "iter"))))
        return out

    def compatible(self, labs):
        """Could labels with and without an instance come from the same source element?  (constants do not tell)"""
        ks = [x for x in labs if not x.insts]
        us = [x for x in labs if x.insts]
        for a in ks:
            for b in us:
                if type(a.val) is K and isinstance(a.val.v, str):
                    ws = strs.words_of(strs.lab_state(b), b.val)
                    if ws is not None and b.insts[0][0].kind in ("num", "other", "skip"):
                        return False
        return True

    def tuplab(self, labs):
        vals, insts, nums = [], (), ()
        for x in labs:
            a, b = len(insts), len(nums)
            vals.append(map_val(x.val, lambda i, a=a: i + a, lambda n, b=b: n + b, lambda r: r))
            insts += x.insts
            nums += x.nums
        return Lab(Tup(vals), insts, nums)

    def same_source(self, l):
        """Are all the lists element-by-element images of one list (so that zip pairs images of one element)?"""
        lens = []
        roots = []
        for ps in l:
            if len(ps) != 1 or ps[0][0] != "P":
                return False
            g = ps[0][1]
            roots.append(g.map_of or ("self", g.id))
        return len(set(roots)) == 1 or all(r == roots[0] for r in roots)

    def bi_map(self, st, args, kw):
        f = args[0]
        if len(args) == 2:
            src = args[1]
        else:
            outs = []
            for q, z in self.bi_zip(st, args[1:], {}):
                outs.extend(self.mapped(q, z, lambda x, v: self.ip.call(x, f, list(v.items), {})))
            return outs
        return self.mapped(st, src, lambda x, v: self.ip.call(x, f, [v], {}))

    def mapped(self, st, src, fn, keep=None):
        ip = self.ip
        o = ip.alloc(st, Lst((), "iter"))
        cur = ip.get(st, st.frames[-1])
        st.frames = st.frames + (st.new(),)
        fr = st.frames[-1]
        st.heap[fr] = Frame({"$out": o}, st.frames[-2], ip._Comp, cur.mod)
        st.heap[fr].code.locals = frozenset()

        def body(q, v):
            saved, ip.exc = ip.exc, []
            res = []
            for x, r in fn(q, v):
                if keep is None:
                    ys = [(x, True, r)]
                else:
                    ys = [(y, b, v) for y, b in self.truth(x, r)]
                for y, b, w in ys:
                    if b == (keep is not False):
                        oo = ip.get(y, y.frames[-1]).vars["$out"]
                        rec = ip.get(y, oo.id)
                        ip.set(y, oo.id, Lst(rec.pieces + (("E", w),), "iter"))
                    res.append((y, None))
            res.extend((y, ("exc", e)) for y, e in ip.exc)
            ip.exc = saved
            return res
        out = []
        for q, sig in ip.iterate(st, src, body, ("map", id(fn))):
            oo = ip.get(q, q.frames[-1]).vars["$out"]
            q.frames = q.frames[:-1]
            if sig[0] == "exc":
                ip.exc.append((q, sig[1]))
            else:
                out.append((q, oo))
        return out

    def bi_filter(self, st, args, kw):
        f, src = args
        if f == NONE:
            return self.mapped(st, src, lambda x, v: [(x, v)], True)
        return self.mapped(st, src, lambda x, v: self.ip.call(x, f, [v], {}), True)

    def bi_any(self, st, args, kw, neg=False):
        out = []
        for q, ps in self.pieces(st, args[0]):
            self.consume(q, args[0])
            if all(p[0] == "E" for p in ps):
                cur = [q]
                for p in ps:
                    nxt = []
                    for x in cur:
                        for y, b in self.truth(x, p[1]):
                            if b != neg:
                                out.append((y, K(not neg)))
                            else:
                                nxt.append(y)
                    cur = nxt
                out.extend((x, K(neg)) for x in cur)
                continue
            poss = self.path_any(q, ps, lambda x, v: [(y, b != neg) for y, b in self.truth(x, v)])
            for b in poss:
                x = q.copy()
                if len(poss) > 1:
                    x.flag("fork")
                out.append((x, K(b != neg)))
        return out

    def bi_all(self, st, args, kw):
        return self.bi_any(st, args, kw, neg=True)

    def bi_sum(self, st, args, kw):
        out = []
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        for q, ps in self.pieces(st, args[0]):
            self.consume(q, args[0])
            if all(p[0] == "E" for p in ps):
                cur = [(q, start)]
                for p in ps:
                    cur = [(z, r) for x, a in cur for z, r in self.binop(x, "Add", a, p[1])]
                out.extend(cur)
                continue
            vals = set()
            for p in ps:
                labs = [make_lab(q, p[1])] if p[0] == "E" else strs.all_labs(p)
                for l in labs:
                    s = strs.lab_state(l)
                    ws = strs.words_of(s, l.val)
                    if ws is None:
                        raise Imprecise("sum of abstract integers")
                    vals |= {w for w, _ in ws}
            if vals <= {0, 1, True, False}:
                out.extend([self.path_count(q, ps, lambda x, v: self.truth(x, v))] if start == K(0) else self._imp("sum"))
            else:
                raise Imprecise("sum over an abstract list")
        return out

    def bi_max(self, st, args, kw, op="Gt"):
        ip = self.ip
        key = kw.get("key")
        default = kw.get("default")
        srcs = [(st, tuple(("E", a) for a in args))] if len(args) > 1 else self.pieces(st, args[0])
        out = []
        for q, ps in srcs:
            if any(p[0] == "P" for p in ps):
                raise Imprecise("max over an abstract list")
            if not ps:
                if default is not None:
                    out.append((q, default))
                else:
                    ip.throw(q, "ValueError")
                continue
            kf = (lambda x, v: ip.call(x, key, [v], {})) if key is not None and key != NONE else (lambda x, v: [(x, v)])
            cur = [(x, ps[0][1], k) for x, k in kf(q, ps[0][1])]
            for p in ps[1:]:
                nxt = []
                for x, best, bk in cur:
                    for y, k in kf(x, p[1]):
                        for z, r in self.compare(y, op, k, bk):
                            for w, b in self.truth(z, r):
                                nxt.append((w, p[1], k) if b else (w, best, bk))
                cur = nxt
            out.extend((x, v) for x, v, _ in cur)
        return out

    def bi_min(self, st, args, kw):
        return self.bi_max(st, args, kw, op="Lt")

    def bi_sorted(self, st, args, kw):
        out = []
        ip = self.ip
        key, rv = kw.get("key"), kw.get("reverse", FALSE)
        for q, ps in self.pieces(st, args[0]):
            if any(p[0] == "P" for p in ps):
                raise Imprecise("sorted of an abstract list")
            cur = [(q, [])]
            for p in ps:
                nxt = []
                for x, l in cur:
                    for y, k in (ip.call(x, key, [p[1]], {}) if key is not None and key != NONE else [(x, p[1])]):
                        nxt.append((y, l + [(k, p[1])]))
                cur = nxt
            for x, l in cur:
                if all(x.const(k)[0] for k, _ in l):
                    try:
                        s = sorted(l, key=lambda t: x.const(t[0])[1], reverse=bool(rv.v))
                    except TypeError:
                        ip.throw(x, "TypeError")
                        continue
                    out.append((x, ip.alloc(x, Lst([("E", v) for _, v in s]))))
                    continue
                # insertion sort with abstract comparisons
                st_l = [(x, [])]
                for item in l:
                    nx = []
                    for y, srt in st_l:
                        nx.extend(self.insert_sorted(y, srt, item, rv.v))
                    st_l = nx
                    if len(st_l) > 500:
                        raise Imprecise("sorted")
                for y, srt in st_l:
                    out.append((y, ip.alloc(y, Lst([("E", v) for _, v in srt]))))
        return out

    def insert_sorted(self, st, srt, item, rev):
        """Insert after every element that must come before it (stable)."""
        res = []
        cur = [(st, len(srt))]
        while cur:
            q, i = cur.pop()
            if i == 0:
                res.append((q, [item] + srt))
                continue
            k = srt[i - 1][0]
            for x, r in self.compare(q, "Lt" if not rev else "Gt", item[0], k):
                for y, b in self.truth(x, r):
                    if b:
                        cur.append((y, i - 1))
                    else:
                        res.append((y, srt[:i] + [item] + srt[i:]))
        return res

    def bi_functools_reduce(self, st, args, kw):
        ip = self.ip
        f = args[0]
        out = []
        for q, ps in self.pieces(st, args[1]):
            if any(p[0] == "P" for p in ps):
                raise Imprecise("reduce over an abstract list")
            vs = [p[1] for p in ps]
            if len(args) > 2:
                acc = args[2]
            elif vs:
                acc = vs.pop(0)
            else:
                ip.throw(q, "TypeError")
                continue
            cur = [(q, acc)]
            for v in vs:
                cur = [(y, r) for x, a in cur for y, r in ip.call(x, f, [a, v], {})]
            out.extend(cur)
        return out

    def bi_functools_partial(self, st, args, kw):
        return [(st, Part(Bi("partial"), args, tuple(kw.items())))]

    def bi_functools_wraps(self, st, args, kw):
        return [(st, Part(Bi("wraps"), args))]

    def bi_functools_lru_cache(self, st, args, kw):
        if args and type(args[0]) is Fn:
            return self.decorate(st, Bi("functools.cache"), args[0])
        return [(st, Part(Bi("lru_cache"), ()))]

    def bi_itertools_chain(self, st, args, kw):
        outs = [(st, ())]
        for a in args:
            outs = [(q2, l + tuple(ps)) for q, l in outs for q2, ps in self.pieces(q, a)]
        return [(q, self.ip.alloc(q, Lst(l, "iter"))) for q, l in outs]

    def bi_itertools_chain_from_iterable(self, st, args, kw):
        out = []
        for q, ps in self.pieces(st, args[0]):
            if any(p[0] == "P" for p in ps):
                raise Imprecise("chain.from_iterable")
            out.extend(self.bi_itertools_chain(q, [p[1] for p in ps], {}))
        return out

    def bi_itertools_takewhile(self, st, args, kw):
        ip = self.ip
        f, src = args
        o = None
        return self.taking(st, src, f, "take")

    def bi_itertools_dropwhile(self, st, args, kw):
        raise Imprecise("dropwhile")

    def taking(self, st, src, f, mode):
        ip = self.ip
        o = ip.alloc(st, Lst((), "iter"))
        cur = ip.get(st, st.frames[-1])
        fr = st.new()
        st.frames = st.frames + (fr,)
        st.heap[fr] = Frame({"$out": o}, st.frames[-2], ip._Comp, cur.mod)
        ip._Comp.locals = frozenset()

        def body(q, v):
            saved, ip.exc = ip.exc, []
            res = []
            for x, r in ip.call(q, f, [v], {}):
                for y, b in self.truth(x, r):
                    if b:
                        oo = ip.get(y, y.frames[-1]).vars["$out"]
                        rec = ip.get(y, oo.id)
                        ip.set(y, oo.id, Lst(rec.pieces + (("E", v),), "iter"))
                        res.append((y, None))
                    else:
                        res.append((y, ("brk",)))
            res.extend((y, ("exc", e)) for y, e in ip.exc)
            ip.exc = saved
            return res
        out = []
        for q, sig in ip.iterate(st, src, body, ("take", id(f))):
            oo = ip.get(q, q.frames[-1]).vars["$out"]
            q.frames = q.frames[:-1]
            if sig[0] == "exc":
                ip.exc.append((q, sig[1]))
            else:
                out.append((q, oo))
        return out

    def bi_itertools_islice(self, st, args, kw):
        lo, hi = (NONE, args[1]) if len(args) == 2 else (args[1], args[2])
        out = []
        for q, ps in self.pieces(st, args[0]):
            for q2, r in self.list_slice(q, ps, lo, hi):
                out.append((q2, self.ip.alloc(q2, Lst(r, "iter"))))
        return out

    def bi_copy_copy(self, st, args, kw):
        v = args[0]
        if type(v) is Ref:
            return [(st, self.ip.alloc(st, self.ip.get(st, v.id)))]
        return [(st, v)]

    def bi_copy_deepcopy(self, st, args, kw):
        v = args[0]
        m = {}

        def cp(x):
            if type(x) is Ref:
                if x.id in m:
                    return m[x.id]
                rec = self.ip.get(st, x.id)
                if type(rec) in (ClsR, Frame):
                    return x
                r = m[x.id] = self.ip.alloc(st, rec)
                st.heap[r.id] = map_rec(rec, cp, lambda y: y)
                return r
            if type(x) is Tup:
                return Tup([cp(y) for y in x.items])
            return x
        return [(st, cp(v))]

    def bi_type(self, st, args, kw):
        v = args[0]
        if type(v) is Ref:
            rec = self.ip.get(st, v.id)
            if type(rec) is Obj and rec.cls is not None:
                return [(st, Ref(rec.cls))]
        if type(v) is N:
            return [(st, Bi("int", int))]
        if type(v) in (S, IS):
            return [(st, Bi("str", str))]
        if type(v) is K:
            return [(st, Bi(type(v.v).__name__, type(v.v)))]
        if type(v) is Rel:
            ts = {type(v.tab[i]) for i in bits(st.ins[v.inst][1])}
            if len(ts) == 1:
                t = ts.pop()
                return [(st, Bi(t.__name__, t))]
        raise Imprecise("type()")

    def bi_abs(self, st, args, kw):
        if type(args[0]) is N and st.nums[args[0].id][1] is not None and st.nums[args[0].id][1] >= 0:
            return [(st, args[0])]
        return None

    def bi_super(self, st, args, kw):
        if len(args) == 2:
            return [(st, Super(args[0].id, args[1]))]
        raise Imprecise("super")

    # ------------------------------------------------------------------ decorators and classes
    def decorate(self, st, dec, f):
        if isinstance(dec, Bi):
            n = dec.name
            if n in ("staticmethod", "classmethod", "property"):
                return [(st, Part(Bi(n), [f]))]
            if n in ("functools.cached_property",):
                return [(st, Part(Bi("cached_property"), [f]))]
            if n in ("functools.cache", "functools.lru_cache"):
                if isinstance(f, Fn):
                    return [(st, Fn(f.code, f.frame, f.defaults, f.kwdefaults, True))]
                return [(st, f)]
            if n.startswith("typing.") or n.startswith("abc."):
                return [(st, f)]
        if isinstance(dec, Part) and isinstance(dec.fn, Bi) and dec.fn.name == "lru_cache":
            return self.decorate(st, Bi("functools.cache"), f)
        if isinstance(dec, Part) and isinstance(dec.fn, Bi) and dec.fn.name == "wraps":
            return [(st, f)]
        return self.ip.call(st, dec, [f], {})

    def decorate_class(self, st, dec, c):
        if isinstance(dec, Bi) and dec.name == "dataclasses.dataclass":
            return [(st, self.dataclass(st, c))]
        if isinstance(dec, Sym) and dec.name.startswith("load:dataclasses"):
            return [(st, self.dataclass(st, c))]
        if isinstance(dec, Part) and dec.fn.name == "dataclasses.dataclass":
            return [(st, self.dataclass(st, c))]
        if isinstance(dec, Bi) and dec.name.startswith(("typing.", "functools.")):
            return [(st, c)]
        return self.ip.call(st, dec, [c], {})

    def bi_dataclasses_dataclass(self, st, args, kw):
        return [(st, Part(Bi("dataclasses.dataclass"), ()))]

    def bi_dataclasses_field(self, st, args, kw):
        return [(st, Part(Bi("field"), (), tuple(kw.items())))]

    def dataclass(self, st, c):
        rec = self.ip.get(st, c.id)
        ann = rec.attrs.get("__annotations__")
        self.ip.set(st, c.id, ClsR(rec.name, rec.bases, rec.attrs, ("dataclass", ann.v if ann else ())), write=False)
        return c

    def finish_class(self, st, c):
        if not isinstance(c, Ref):
            return
        rec = self.ip.get(st, c.id)
        if type(rec) is not ClsR:
            return
        for v in rec.attrs.values():
            if isinstance(v, Part) and v.args:
                v = v.args[0]
            if isinstance(v, Fn):
                v.code.owner = c.id
        if any(isinstance(b, Bi) and b.name in ("typing.NamedTuple",) for b in rec.bases):
            ann = rec.attrs.get("__annotations__")
            self.ip.set(st, c.id, ClsR(rec.name, rec.bases, rec.attrs, ("namedtuple", ann.v if ann else ())), write=False)

    def is_namedtuple(self, st, cid):
        return self.ip.get(st, cid).meta[:1] == ("namedtuple",)

    def namedtuple(self, st, args):
        names = args[1]
        ok, c = st.const(names)
        if not ok and type(names) is Ref:
            c = self.plain(st, names)
        if isinstance(c, str):
            c = c.replace(",", " ").split()
        r = self.ip.alloc(st, ClsR(args[0].v, (), {}, ("namedtuple", tuple(c))))
        return [(st, r)]

    bi_collections_namedtuple = lambda self, st, args, kw: self.namedtuple(st, args)

    def instantiate(self, st, c, rec, args, kw):
        ip = self.ip
        if rec.meta[:1] in (("dataclass",), ("namedtuple",)) and ip.cls_lookup(st, c.id, "__init__") is None:
            fields = list(rec.meta[1])
            attrs = {}
            if len(args) > len(fields):
                ip.throw(st, "TypeError")
                return []
            for n, v in zip(fields, args):
                attrs[n] = v
            for n, v in kw.items():
                if n not in fields or n in attrs:
                    ip.throw(st, "TypeError")
                    return []
                attrs[n] = v
            outs = [(st, attrs)]
            for n in fields:
                nxt = []
                for q, d in outs:
                    if n in d:
                        nxt.append((q, d))
                        continue
                    dv = rec.attrs.get(n)
                    if dv is None:
                        ip.throw(q, "TypeError")
                        continue
                    if isinstance(dv, Part) and dv.fn == Bi("field"):
                        k = dict(dv.kw)
                        if "default_factory" in k:
                            nxt.extend((q2, {**d, n: v}) for q2, v in ip.call(q, k["default_factory"], [], {}))
                        elif "default" in k:
                            nxt.append((q, {**d, n: k["default"]}))
                        else:
                            raise Imprecise("field")
                    else:
                        nxt.append((q, {**d, n: dv}))
                outs = nxt
            res = []
            for q, d in outs:
                o = ip.alloc(q, Obj(c.id, {n: d[n] for n in fields}))
                post = ip.cls_lookup(q, c.id, "__post_init__")
                if post is not None:
                    res.extend((x, o) for x, _ in ip.call(q, Bound(post, o), [], {}))
                else:
                    res.append((q, o))
            return res
        if any(isinstance(b, Bi) and b.name in EXC for b in rec.bases):
            o = ip.alloc(st, Obj(c.id, {"args": Tup(args)}))
        elif any(isinstance(b, Bi) and b.name in ("dict", "list", "str", "int", "tuple", "set") or
                 isinstance(b, Bi) and b.name.startswith("enum.") for b in rec.bases):
            raise Imprecise("subclass of a builtin")
        else:
            o = ip.alloc(st, Obj(c.id, {}))
        init = ip.cls_lookup(st, c.id, "__init__")
        if init is None:
            if (args or kw) and not any(isinstance(b, Bi) for b in rec.bases):
                ip.throw(st, "TypeError")
                return []
            return [(st, o)]
        return [(q, o) for q, _ in ip.call(st, Bound(init, o), list(args), kw)]

    # ------------------------------------------------------------------ exceptions
    def exc_name(self, st, cid):
        """Name chain of an exception class; the builtin base decides what catches it."""
        if cid is None:
            return "Exception"
        rec = self.ip.get(st, cid)
        for b in rec.bases:
            if isinstance(b, Bi) and b.name in EXC:
                return b.name
            if isinstance(b, Ref):
                return self.exc_name(st, b.id)
        return "Exception"

    def exc_match(self, st, exc, tv):
        if type(tv) is Tup:
            return any(self.exc_match(st, exc, x) for x in tv.items)
        if type(tv) is Ref:
            if exc.obj is None:
                return False
            o = self.ip.get(st, exc.obj.id)
            c = [o.cls]
            while c:
                k = c.pop()
                if k == tv.id:
                    return True
                c.extend(b.id for b in self.ip.get(st, k).bases if type(b) is Ref)
            return False
        if type(tv) is Bi:
            a, b = EXC.get(exc.cls), EXC.get(tv.name.split(".")[-1])
            if a is None or b is None:
                import unicodedata
                return exc.cls == tv.name.split(".")[-1]
            return issubclass(a, b)
        raise Imprecise("except clause")

    # ------------------------------------------------------------------ sharing
    def mark_shared(self, st, v):
        """Objects handed out by a cache are shared by every later call."""
        ids = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if type(x) is Tup:
                todo.extend(x.items)
            if type(x) is Ref and x.id not in ids and x.id in st.heap:
                ids.add(x.id)
                todo.extend(refs_of(st.heap[x.id]))
        if ids:
            st.seen = tuple(sorted(set(st.seen) | ids))


def NeedPW_(inst):
    from .interp import NeedPW
    return NeedPW(inst)


def needed_chars(pat):
    """Characters every match of the pattern contains."""
    if pat.flags & re.IGNORECASE or not isinstance(pat.pattern, str):
        return []
    try:
        from re import _parser
        ops = list(_parser.parse(pat.pattern, pat.flags & ~re.UNICODE))
    except Exception:
        return []
    return [chr(a) for op, a in ops if str(op) == "LITERAL"]
