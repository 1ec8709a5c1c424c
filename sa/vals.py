"""Abstract values, path graphs and abstract states of the number-parser analyser.

Everything here is immutable unless it says otherwise.  See DESIGN.md, "The engine".
"""
from fractions import Fraction


class Imprecise(Exception):
    """The analyser met something it has no abstraction for; the obligation stays undecided."""


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class K(V):
    """A constant: any immutable Python object whose value is known."""
    __slots__ = ("v", "_h")

    def __init__(self, v):
        self.v = v
        self._h = None

    def __eq__(self, o):
        return isinstance(o, K) and (o.v is self.v or (type(o.v) is type(self.v) and o.v == self.v))

    def __hash__(self):
        if self._h is None:
            try:
                self._h = hash((type(self.v).__name__, self.v))
            except TypeError:
                self._h = id(self.v)
        return self._h

    def __repr__(self):
        return "K(%r)" % (self.v,)


NONE, TRUE, FALSE, EMPTY = K(None), K(True), K(False), K("")

_TABS = {}


def intern_tab(t):
    t = tuple(t)
    key = tuple((type(x).__name__, x) for x in t)
    try:
        return _TABS.setdefault(key, t)
    except TypeError:                      # unhashable entries: no sharing
        return t


class Rel(V):
    """A value that is a function of which word of a universe an instance is (tab: word index -> constant)."""
    __slots__ = ("inst", "tab")

    def __init__(self, inst, tab):
        self.inst = inst
        self.tab = tab

    def __eq__(self, o):
        return isinstance(o, Rel) and o.inst == self.inst and (o.tab is self.tab or o.tab == self.tab)

    def __hash__(self):
        return hash((self.inst, len(self.tab), self.tab[0].__class__.__name__))

    def __repr__(self):
        return "Rel(%d,%r%s)" % (self.inst, self.tab[:3], ".." if len(self.tab) > 3 else "")


class N(V):
    """An abstract integer; the state's num table gives its linear form and range."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, N) and o.id == self.id

    def __hash__(self):
        return hash(("N", self.id))

    def __repr__(self):
        return "N%d" % self.id


class IS(V):
    """The decimal string of an abstract integer."""
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, IS) and o.id == self.id

    def __hash__(self):
        return hash(("IS", self.id))

    def __repr__(self):
        return "IS%d" % self.id


class S(V):
    """An abstract string: a sequence of pieces, each E(value) or P(graph, a, b)."""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def __eq__(self, o):
        return isinstance(o, S) and o.pieces == self.pieces

    def __hash__(self):
        return hash(("S", self.pieces))

    def __repr__(self):
        return "S%r" % (self.pieces,)


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("Tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return "@%d" % self.id


class Pos(V):
    """A position in an abstract string: after the prefix `pieces` of it (plus a constant offset)."""
    __slots__ = ("src", "before", "after", "off")

    def __init__(self, src, before, after, off=0):
        self.src, self.before, self.after, self.off = src, before, after, off

    def _k(self):
        return (self.src, self.before, self.after, self.off)

    def __eq__(self, o):
        return isinstance(o, Pos) and o._k() == self._k()

    def __hash__(self):
        return hash(("Pos",) + self._k())


class Fn(V):
    """A user function: code (a FunctionDef/Lambda wrapper), closure frame, defaults."""
    __slots__ = ("code", "frame", "defaults", "kwdefaults", "cached")

    def __init__(self, code, frame, defaults, kwdefaults, cached=False):
        self.code, self.frame, self.defaults, self.kwdefaults = code, frame, defaults, kwdefaults
        self.cached = cached

    def _k(self):
        return (id(self.code), self.frame, self.defaults, self.kwdefaults, self.cached)

    def __eq__(self, o):
        return isinstance(o, Fn) and o._k() == self._k()

    def __hash__(self):
        return hash(("Fn", id(self.code), self.frame))

    def __repr__(self):
        return "Fn(%s)" % self.code.name


class Bound(V):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash(("B", self.fn, self.self_))


class Bi(V):
    """A builtin or standard library function, class or attribute, by dotted name."""
    __slots__ = ("name", "obj")

    def __init__(self, name, obj=None):
        self.name, self.obj = name, obj

    def __eq__(self, o):
        return isinstance(o, Bi) and o.name == self.name

    def __hash__(self):
        return hash(("Bi", self.name))

    def __repr__(self):
        return "Bi(%s)" % self.name


class Part(V):
    """functools.partial / operator.itemgetter-like closure of a builtin over values."""
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw=()):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(kw)

    def _k(self):
        return (self.fn, self.args, self.kw)

    def __eq__(self, o):
        return isinstance(o, Part) and o._k() == self._k()

    def __hash__(self):
        return hash(("Part",) + self._k())


class Meth(V):
    """A method of a builtin value."""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __eq__(self, o):
        return isinstance(o, Meth) and o.name == self.name and o.recv == self.recv

    def __hash__(self):
        return hash(("M", self.name, self.recv))


class Mod(V):
    """A module: a user module (frame ref) or a standard library module."""
    __slots__ = ("name", "frame")

    def __init__(self, name, frame=None):
        self.name, self.frame = name, frame

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(("Mod", self.name))

    def __repr__(self):
        return "Mod(%s)" % self.name


class Super(V):
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def __eq__(self, o):
        return isinstance(o, Super) and o.cls == self.cls and o.obj == self.obj

    def __hash__(self):
        return hash(("Super", self.cls, self.obj))


class Sym(V):
    """An unknown constant of a named kind (an unsupported language name, say)."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(("Sym", self.name))

    def __repr__(self):
        return "Sym(%s)" % self.name


class Exc:
    """A raised exception: class name and, when known, its message value."""
    __slots__ = ("cls", "args", "where", "py", "obj")

    def __init__(self, cls, args=(), where=None, py=None, obj=None):
        self.cls, self.args, self.where, self.py, self.obj = cls, args, where, py, obj

    def __repr__(self):
        return "Exc(%s at %s)" % (self.cls, self.where)


# ------------------------------------------------------------------ universes
class Uni:
    """A finite set of raw words that one abstract token may be, with what the lexicon says of them.

    kind    'num' | 'skip' | 'ws' | 'sep' | 'punct' | 'other' | 'apos' | 'digits' | 'mark'
    vals    value of each word (kind num), else None
    act     effect of a number word on the reference registers: tuple of (reg, lin)
    src,dst positions in the input graph (provenance)
    """
    __slots__ = ("name", "words", "kind", "vals", "act", "newseg", "brk", "src", "dst", "tag", "full", "_idt",
                 "rec", "key", "_h")

    def __init__(self, name, words, kind, vals=None, act=None, newseg=False, brk=False, src=None, dst=None,
                 tag=None, rec=None):
        self.name, self.words, self.kind = name, tuple(words), kind
        self.vals = tuple(vals) if vals is not None else None
        self.act, self.newseg, self.brk, self.src, self.dst, self.tag = act, newseg, brk, src, dst, tag
        self.full = (1 << len(self.words)) - 1
        self._idt = intern_tab(self.words)
        self.rec = rec
        self.key = (name, self.words, kind, self.vals, act, newseg, brk, src, dst, tag)
        self._h = hash(self.key)

    def __eq__(self, o):
        return self is o or (isinstance(o, Uni) and self._h == o._h and self.key == o.key)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return "U(%s)" % self.name

    def ident(self, inst):
        return Rel(inst, self._idt)


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


# ------------------------------------------------------------------ linear forms
ONE = ("1",)


def lin(d):
    return tuple(sorted(((s, c) for s, c in d.items() if c != 0), key=repr))


def lin_const(c):
    return lin({ONE: c})


def lin_add(a, b, k=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for s, c in b:
        d[s] = d.get(s, 0) + k * c
    return lin(d)


def lin_scale(a, k):
    if a is None:
        return None
    return lin({s: c * k for s, c in a})


def lin_is_const(a):
    return a is not None and all(s == ONE for s, _ in a)


def lin_subst(a, sub):
    """Replace symbols by linear forms (sub: sym -> lin)."""
    if a is None:
        return None
    d = {}
    for s, c in a:
        if s in sub:
            for t, k in sub[s]:
                d[t] = d.get(t, 0) + c * k
        else:
            d[s] = d.get(s, 0) + c
    return lin(d)


def lin_syms(a):
    return [s for s, _ in a if s != ONE] if a else []


# ------------------------------------------------------------------ path graphs
class Lab:
    """An edge label: a value over local instances 0..k-1, with their universes and live masks."""
    __slots__ = ("val", "insts", "nums", "_h")

    def __init__(self, val, insts=(), nums=()):
        self.val, self.insts, self.nums = val, tuple(insts), tuple(nums)
        self._h = hash((val, self.insts, self.nums))

    def __eq__(self, o):
        return self is o or (isinstance(o, Lab) and self._h == o._h and self.val == o.val
                             and self.insts == o.insts and self.nums == o.nums)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.insts:
            u, m = self.insts[0]
            return "<%r %s>" % (self.val, u.name)
        return "<%r>" % (self.val,)


class Graph:
    """A labelled graph; a list or string is a path of it.  Growable while `dyn`, then frozen."""
    _n = 0

    def __init__(self, dyn=None):
        Graph._n += 1
        self.id = Graph._n
        self.out = {}
        self.inn = {}
        self.edges = set()
        self.dyn = dyn                # the loop that grows it, or None
        self.names = {}
        self.nn = 0
        self._rank = None
        self._reach = {}
        self._fwd = {}
        self._size = {}
        self._maps = {}
        self.map_of = None
        self.frozen = {}
        self.minlen = {}
        self.phase = {}
        self._scc = None

    def __repr__(self):
        return "G%d" % self.id

    def node(self, name=None):
        if name is not None:
            n = self.names.get(name)
            if n is not None:
                return n
        n = self.nn
        self.nn += 1
        if name is not None:
            self.names[name] = n
        self.out.setdefault(n, [])
        self.inn.setdefault(n, [])
        return n

    def add(self, a, lab, b):
        """Add an edge; True when it is new."""
        e = (a, lab, b)
        if e in self.edges:
            return False
        self.edges.add(e)
        self.out.setdefault(a, []).append((lab, b))
        self.inn.setdefault(b, []).append((lab, a))
        self.out.setdefault(b, [])
        self.inn.setdefault(a, [])
        self._reach.clear()
        self._fwd.clear()
        self._size.clear()
        if self.dyn is not None:
            self.frozen.clear()
        self._rank = None
        return True

    def scc(self, n):
        """Number of the strongly connected component of n."""
        if self._scc is None or self._scc[0] != len(self.edges):
            idx, low, comp, stack, k = {}, {}, {}, [], 0
            for root in self.out:
                if root in idx:
                    continue
                work = [(root, iter(self.out[root]))]
                idx[root] = low[root] = len(idx)
                stack.append(root)
                while work:
                    v, it = work[-1]
                    for _, m in it:
                        if m not in idx:
                            idx[m] = low[m] = len(idx)
                            stack.append(m)
                            work.append((m, iter(self.out[m])))
                            break
                        if m not in comp:
                            low[v] = min(low[v], idx[m])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == idx[v]:
                            while True:
                                w = stack.pop()
                                comp[w] = k
                                if w == v:
                                    break
                            k += 1
            self._scc = (len(self.edges), comp)
        return self._scc[1].get(n)

    def size(self, a, b):
        """Number of edges on paths from a to b."""
        n = self._size.get((a, b))
        if n is None:
            live = self.reaches(b) & self.forward(a)
            n = self._size[(a, b)] = sum(1 for x in live for _, m in self.out[x] if m in live)
        return n

    def reaches(self, b):
        """Nodes from which b can be reached (b included)."""
        r = self._reach.get(b)
        if r is None:
            r = {b}
            todo = [b]
            while todo:
                n = todo.pop()
                for _, p in self.inn.get(n, ()):
                    if p not in r:
                        r.add(p)
                        todo.append(p)
            self._reach[b] = r
        return r

    def forward(self, a):
        r = self._fwd.get(a)
        if r is not None:
            return r
        r = self._fwd[a] = {a}
        todo = [a]
        while todo:
            n = todo.pop()
            for _, p in self.out.get(n, ()):
                if p not in r:
                    r.add(p)
                    todo.append(p)
        return r

    def rank(self, n):
        """Reverse postorder number: loops process earlier positions first."""
        if self._rank is None:
            post, seen = {}, set()
            roots = [x for x in self.out if not self.inn.get(x)] + list(self.out)
            for r in roots:
                if r in seen:
                    continue
                seen.add(r)
                stack = [(r, iter(self.out[r]))]
                while stack:
                    x, it = stack[-1]
                    for _, y in it:
                        if y not in seen:
                            seen.add(y)
                            stack.append((y, iter(self.out[y])))
                            break
                    else:
                        stack.pop()
                        post[x] = len(post)
            m = len(post)
            self._rank = {x: m - i for x, i in post.items()}
        return self._rank.get(n, 0)

    def lengths(self, a, b):
        """(min, max or None) number of edges on paths from a to b; None if unreachable."""
        live = self.reaches(b) & self.forward(a)
        if a not in live:
            return None
        dist = {a: 0}
        todo = [a]
        for n in todo:
            for _, m in self.out[n]:
                if m in live and m not in dist:
                    dist[m] = dist[n] + 1
                    todo.append(m)
        lo = dist.get(b, 0)
        # acyclic?
        state, best = {}, {}

        def longest(n):
            stack = [(n, iter([m for _, m in self.out[n] if m in live]))]
            state[n] = 1
            while stack:
                x, it = stack[-1]
                for y in it:
                    if state.get(y) == 1:
                        return False
                    if y not in state:
                        state[y] = 1
                        stack.append((y, iter([m for _, m in self.out[y] if m in live])))
                        break
                else:
                    stack.pop()
                    state[x] = 2
                    c = [best[m] + 1 for _, m in self.out[x] if m in live and best.get(m, -1) >= 0]
                    best[x] = max(c + ([0] if x == b else [])) if (c or x == b) else -1
            return True
        if not longest(a):
            return lo, None
        return lo, best[a]


_FROZEN = {}


def merge_edges(edges):
    """Put parallel edges that are parts of one word universe together again."""
    groups, out = {}, []
    for e in edges:
        lab = e[1]
        if len(lab.insts) == 1 and not lab.nums and type(lab.val) is Rel:
            k = (e[0], e[2], lab.insts[0][0])
            if k in groups:
                groups[k].append(e)
            else:
                groups[k] = [e]
                out.append(k)
        else:
            out.append(e)
    if len(out) == len(edges):
        return edges
    res = []
    for k in out:
        if k not in groups or len(groups[k]) == 1:
            res.append(groups[k][0] if k in groups else k)
            continue
        u = k[2]
        parts = []
        for e in groups[k]:
            lab = e[1]
            m = lab.insts[0][1]
            for p in parts:
                tab, pm = p
                if all(not (pm >> w) & 1 or (type(tab[w]) is type(lab.val.tab[w]) and tab[w] == lab.val.tab[w])
                       for w in bits(m)):
                    for w in bits(m):
                        tab[w] = lab.val.tab[w]
                    p[1] = pm | m
                    break
            else:
                t = [None] * len(u.words)
                for w in bits(m):
                    t[w] = lab.val.tab[w]
                parts.append([t, m])
        for t, m in parts:
            if m == u.full and tuple(t) == u._idt:
                t = u._idt
            res.append((k[0], Lab(Rel(0, intern_tab(t)), ((u, m),)), k[1]))
    return res


def freeze(g, a, b):
    """The trimmed, interned copy of the language of g between a and b: (graph, a', b')."""
    if g.dyn is not None:
        g.dyn.note_read(g, a, b)
    hit = g.frozen.get((a, b))
    if hit is not None:
        return hit
    live = g.reaches(b) & g.forward(a)
    # backward bisimulation-ish reduction: merge nodes with the same sets of (label, successor)
    cls = {n: (0 if n == b else 1) for n in live}
    k = len(set(cls.values()))
    while True:
        sig = {}
        new = {}
        for n in live:
            s = (cls[n], frozenset((lab, cls[m]) for lab, m in g.out[n] if m in live))
            new[n] = sig.setdefault(s, len(sig))
        if len(sig) == k:
            break
        k = len(sig)
        cls = new
    rep_out = {}
    for n in live:
        rep_out.setdefault(cls[n], set()).update((lab, cls[m]) for lab, m in g.out[n] if m in live)
    order = {cls[a]: 0}
    todo = [cls[a]]
    sigedges = []
    for c in todo:
        for lab, m in sorted(rep_out[c], key=lambda t: (hash(t[0]), t[1] if t[1] in order else -1)):
            if m not in order:
                order[m] = len(order)
                todo.append(m)
            sigedges.append((order[c], lab, order[m]))
    sigedges = merge_edges(sigedges)
    key = (frozenset(sigedges), order[cls[a]], order.get(cls[b], -1))
    hit = _FROZEN.get(key)
    if hit is None:
        h = Graph()
        for _ in range(len(order)):
            h.node()
        for e in sigedges:
            h.add(*e)
        h.map_of = g.map_of
        hit = _FROZEN[key] = (h, order[cls[a]], order.get(cls[b], -1))
    g.frozen[(a, b)] = hit
    return hit


# pieces: ('E', value) / ('P', graph, a, b)
def E(v):
    return ("E", v)


def P(g, a, b):
    return ("P", g, a, b)
