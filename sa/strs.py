"""Abstract strings: splitting, mapping, searching, stripping and joining of path languages."""
import itertools
import re

from .vals import *
from .state import *
from .loops import make_lab, inst_lab, expand, expand_back


def spieces(st, v):
    """A string value as pieces."""
    if type(v) is S:
        return v.pieces
    if type(v) is K and isinstance(v.v, str):
        return (("E", v),) if v.v else ()
    return (("E", v),)


def mkS(st, ps):
    """Normalise a concatenation."""
    out = []
    for p in ps:
        if p[0] == "E":
            v = p[1]
            if type(v) is S:
                for x in v.pieces:
                    _app(st, out, x)
                continue
        _app(st, out, p)
    if not out:
        return EMPTY
    if len(out) == 1 and out[0][0] == "E":
        return out[0][1]
    return S(out)


def _app(st, out, p):
    if p[0] == "E":
        v = p[1]
        if type(v) is K:
            if v.v == "":
                return
            if not isinstance(v.v, str):
                raise Imprecise("non-string in a concatenation")
        if out and out[-1][0] == "E":
            w = out[-1][1]
            m = concat2(st, w, v)
            if m is not None:
                out[-1] = ("E", m)
                return
    out.append(p)


def concat2(st, w, v):
    """One value for w+v when both depend on at most one instance."""
    if type(w) is K and type(v) is K:
        return K(w.v + v.v)
    for a, b in ((w, v), (v, w)):
        if type(a) is Rel and (type(b) is K or (type(b) is Rel and b.inst == a.inst)):
            u, m = st.ins[a.inst]
            tab = [None] * len(u.words)
            for i in bits(m):
                x = w.v if type(w) is K else w.tab[i]
                y = v.v if type(v) is K else v.tab[i]
                tab[i] = x + y
            return Rel(a.inst, intern_tab(tab))
    return None


# ------------------------------------------------------------------ values of labels, word by word
def lab_state(lab):
    st = St()
    for i, um in enumerate(lab.insts):
        st.ins[i] = um
    for i, n in enumerate(lab.nums):
        st.nums[i] = n
    st.nx = 10 ** 5
    return st


def words_of(st, v):
    """(constant or None-for-opaque, mask or None) alternatives of an atom value."""
    if type(v) is K:
        return [(v.v, None)]
    if type(v) is Rel:
        u, m = st.ins[v.inst]
        return [(v.tab[i], 1 << i) for i in bits(m)]
    return None


def classify(st, v, f):
    """Group the words of an atom by f(word): list of (class, mask or None)."""
    ws = words_of(st, v)
    if ws is None:
        if type(v) is IS:
            cs = {repr(f(x)): f(x) for x in ("0", "7", "12", "100", "90210")}
            if len(cs) == 1:
                return [(list(cs.values())[0], None)]
            raise Imprecise("operation depends on the digits of a number")
        raise Imprecise("operation on a composite string")
    if len(ws) == 1 and ws[0][1] is None:
        return [(f(ws[0][0]), None)]
    g = {}
    for w, m in ws:
        c = f(w)
        g[c] = g.get(c, 0) | m
    return list(g.items())


def restrict_lab(lab, mask):
    if mask is None or not lab.insts:
        return lab
    (u, m), rest = lab.insts[0], lab.insts[1:]
    i = inst_index(lab.val)
    ins = list(lab.insts)
    u, m = ins[i]
    ins[i] = (u, m & mask)
    return Lab(lab.val, ins, lab.nums)


def inst_index(v):
    if type(v) is Rel:
        return v.inst
    return 0


class GB:
    """Builds a path graph; values that are strings with parts are spliced in."""

    def __init__(self):
        self.g = Graph()
        self.eps = []

    def node(self, name):
        return self.g.node(name)

    def add(self, a, lab, b):
        v = lab.val
        if type(v) is K and v.v == "":
            self.eps.append((a, b))
            return
        if type(v) is S:
            cur = a
            n = len(v.pieces)
            if n == 0:
                self.eps.append((a, b))
                return
            for i, p in enumerate(v.pieces):
                dst = b if i == n - 1 else self.node(("s", a, lab, b, i))
                if p[0] == "E":
                    self.add(cur, sub_lab(lab, p[1]), dst)
                else:
                    self.splice(cur, p, dst, ("sp", a, lab, b, i))
                cur = dst
            return
        self.g.add(a, lab, b)

    def splice(self, a, p, b, tag):
        _, h, x, y = p
        live = h.reaches(y) & h.forward(x)
        nd = lambda n: self.node((tag, n))
        self.eps.append((a, nd(x)))
        for n in live:
            for lab, m in h.out[n]:
                if m in live:
                    self.add(nd(n), lab, nd(m))
        self.eps.append((nd(y), b))

    def done(self, a, b):
        """Pieces for the language between nodes a and b (epsilon edges removed): list of alternatives."""
        g = self.g
        ea = {}
        for x, y in self.eps:
            ea.setdefault(x, set()).add(y)
        if not ea:
            if a == b and not g.out[a]:
                return [()]
            return [(("P",) + freeze(g, a, b),)] if a in g.reaches(b) else []

        def clo(x):
            r = {x}
            t = [x]
            while t:
                n = t.pop()
                for m in ea.get(n, ()):
                    if m not in r:
                        r.add(m)
                        t.append(m)
            return r
        h = Graph()
        A, B = h.node("start"), h.node("end")
        nullable = b in clo(a)
        nodes = set(g.out)
        todo, seen = [], set()

        def link(src, x):
            """Edges out of the closure of x, from the new node src."""
            for n in clo(x):
                for lab, m in g.out.get(n, ()):
                    h.add(src, lab, h.node(("n", m)))
                    if b in clo(m):
                        h.add(src, lab, B)
                    if m not in seen:
                        seen.add(m)
                        todo.append(m)
        link(A, a)
        while todo:
            m = todo.pop()
            link(h.node(("n", m)), m)
        out = []
        if A in h.reaches(B):
            out.append((("P",) + freeze(h, A, B),))
        if nullable:
            out.append(())
        return out


def sub_lab(lab, v):
    """A label for a part v of the value of lab (shares its instances)."""
    im, nm = {}, {}
    insts, nums = [], []

    def fi(i):
        if i not in im:
            im[i] = len(insts)
            insts.append(lab.insts[i])
        return im[i]

    def fn(n):
        if n not in nm:
            nm[n] = len(nums)
            nums.append(lab.nums[n])
        return nm[n]
    w = map_val(v, fi, fn, lambda r: r)
    return Lab(w, insts, nums)


def lab_concat(a, b):
    """Label for the concatenation of two labels."""
    n, k = len(a.insts), len(a.nums)
    v = map_val(b.val, lambda i: i + n, lambda j: j + k, lambda r: r)
    lab = Lab(None, a.insts + b.insts, a.nums + b.nums)
    st = lab_state(lab)
    return Lab(mkS(st, [("E", a.val), ("E", v)]), lab.insts, lab.nums)


_COMBO = {}


def combined(lab):
    """A label for texts that touch, as one word of a universe of its own (its parts are forgotten); None if too many."""
    opts = []
    if type(lab.val) is not S or lab.nums:
        return None
    seen = set()
    n = 1
    for p in lab.val.pieces:
        if p[0] != "E":
            return None
        v = p[1]
        if type(v) is K and type(v.v) is str:
            opts.append([v.v])
        elif type(v) is Rel and v.inst not in seen:
            seen.add(v.inst)
            ws = list(dict.fromkeys(v.tab[i] for i in bits(lab.insts[v.inst][1])))
            if not all(type(w) is str for w in ws):
                return None
            opts.append(ws)
        else:
            return None
        n *= len(opts[-1])
    if n > 6000:
        return None
    key = tuple(map(tuple, opts))
    r = _COMBO.get(key)
    if r is None:
        ws = list(dict.fromkeys("".join(x) for x in itertools.product(*opts)))
        u = Uni("combo", ws, "combo", brk=True)
        r = _COMBO[key] = Lab(u.ident(0), ((u, u.full),))
    return r


def flatten(ps):
    """Pieces with composite labels spliced into the graphs."""
    need = False
    for p in ps:
        if p[0] == "P" and any(type(l.val) is S for l in all_labs(p)):
            need = True
    if not need:
        return [tuple(ps)]
    outs = [()]
    for p in ps:
        if p[0] == "E":
            outs = [o + (p,) for o in outs]
            continue
        gb = GB()
        _, g, a, b = p
        live = g.reaches(b) & g.forward(a)
        for n in live:
            gb.node(("n", n))
            for lab, m in g.out[n]:
                if m in live:
                    gb.add(gb.node(("n", n)), lab, gb.node(("n", m)))
        alts = gb.done(gb.node(("n", a)), gb.node(("n", b)))
        outs = [o + x for o in outs for x in alts]
    return outs


def all_labs(p):
    _, g, a, b = p
    live = g.reaches(b) & g.forward(a)
    for n in live:
        for lab, m in g.out[n]:
            if m in live:
                yield lab


# ------------------------------------------------------------------ transducers
def transduce(ip, st, ps, init, step, final, aslist):
    """Run a transducer over a string/list.

    step(ts, lab) -> list of (mask, ts', [out labels]);  final(ts) -> [out labels] or None.
    ts is hashable.  Works on labels only.  Returns list of (state, result pieces).
    """
    if not any(p[0] == "P" for p in ps):
        cur = [(st, init, [])]
        for p in ps:
            nxt = []
            for q, ts, outs in cur:
                lab, ren = exact_lab(q, p[1])
                alts = step(ts, lab)
                for k, (mask, t2, o) in enumerate(alts):
                    x = q.copy() if k < len(alts) - 1 else q
                    if mask is not None and ren:
                        i = ren[inst_index(lab.val)]
                        u, m = x.ins[i]
                        x.ins[i] = (u, m & mask)
                    nxt.append((x, t2, outs + o))
            cur = nxt
        res = []
        for q, ts, outs in cur:
            f = final(ts)
            if f is None:
                continue
            res.append((q, [("E", exact_val(q, l)) for l in outs + f]))
        return res
    gb = GB()
    start, end = ("start",), gb.node("end")
    todo, seen = [], set()

    def node(i, n, ts):
        k = (i, n, ts)
        if k not in seen:
            seen.add(k)
            todo.append(k)
        return gb.node(k)

    def emit(a, outs, b):
        cur = a
        if not outs:
            gb.eps.append((a, b))
            return
        for j, l in enumerate(outs):
            dst = b if j == len(outs) - 1 else gb.node(("o", a, tuple(outs), b, j))
            if aslist:
                gb.g.add(cur, l, dst)
            else:
                gb.add(cur, l, dst)
            cur = dst
    A = node(0, ps[0][2] if ps and ps[0][0] == "P" else None, init)
    while todo:
        i, n, ts = todo.pop()
        a = gb.node((i, n, ts))
        if i == len(ps):
            f = final(ts)
            if f is not None:
                emit(a, f, end)
            continue
        p = ps[i]

        def nextn(i):
            return ps[i + 1][2] if i + 1 < len(ps) and ps[i + 1][0] == "P" else None
        if p[0] == "E":
            lab = make_lab(st, p[1])
            for mask, t2, o in step(ts, lab):
                emit(a, [restrict_out(l, lab, mask) for l in o], node(i + 1, nextn(i), t2))
            continue
        _, g, x, y = p
        if g.dyn is not None:
            g.dyn.note_read(g, x, y)
        live = g.reaches(y)
        if n == y:
            gb.eps.append((a, node(i + 1, nextn(i), ts)))
        for lab, m in g.out[n]:
            if m in live:
                for mask, t2, o in step(ts, lab):
                    emit(a, [restrict_out(l, lab, mask) for l in o], node(i, m, t2))
    alts = gb.done(A, end)
    res = []
    for k, al in enumerate(alts):
        q = st.copy() if k < len(alts) - 1 else st
        if len(alts) > 1:
            q.flag("fork")
        res.append((q, list(al)))
    return res


def restrict_out(l, lab, mask):
    return l


def exact_lab(st, v):
    """A value of a state as a label, with the map from local to state instance ids (kept for exact_val)."""
    im, nm, insts, nums = {}, {}, [], []
    ren, rnn = [], []

    def fi(i):
        if i not in im:
            im[i] = len(insts)
            insts.append((TaggedUni(st.ins[i][0], i), st.ins[i][1]))
            ren.append(i)
        return im[i]

    def fn(n):
        if n not in nm:
            nm[n] = len(nums)
            nums.append(("id", n))
            rnn.append(n)
        return nm[n]
    w = map_val(v, fi, fn, lambda r: r)
    return Lab(w, insts, nums), ren


class TaggedUni:
    """A universe standing for one particular instance of a state (exact transduction)."""
    __slots__ = ("u", "id")

    def __init__(self, u, id):
        self.u, self.id = u, id

    def __eq__(self, o):
        return isinstance(o, TaggedUni) and o.id == self.id

    def __hash__(self):
        return hash(("TU", self.id))

    def __getattr__(self, n):
        return getattr(object.__getattribute__(self, "u"), n)


def exact_val(st, lab):
    return map_val(lab.val, lambda i: lab.insts[i][0].id, lambda n: lab.nums[n][1], lambda r: r)


# ------------------------------------------------------------------ operations
def smap(ip, st, v, f, key):
    """Apply a word-local function str -> str to a string value; list of (state, value)."""
    outs = []
    for ps in flatten(spieces(st, v)):
        def step(ts, lab):
            s = lab_state(lab)
            val = lab.val
            if type(val) is K:
                return [(None, 0, [Lab(K(f(val.v)))])]
            if type(val) is Rel:
                u, m = s.ins[val.inst]
                tab = [None] * len(val.tab)
                em = ne = 0
                for i in bits(m):
                    tab[i] = f(val.tab[i])
                    if tab[i] == "":
                        em |= 1 << i
                    else:
                        ne |= 1 << i
                res = []
                if ne:
                    res.append((ne if em else None, 0, [Lab(Rel(val.inst, intern_tab(tab)),
                               with_mask(lab, val.inst, ne), lab.nums)]))
                if em:
                    res.append((em if ne else None, 0, []))
                return res
            if type(val) is IS:
                if f("0123456789") == "0123456789":
                    return [(None, 0, [lab])]
            raise Imprecise("string operation on %r" % (val,))
        for q, r in transduce(ip, st, ps, 0, step, lambda ts: [], False):
            outs.append((q, mkS(q, r)))
    return outs


def with_mask(lab, i, mask):
    ins = list(lab.insts)
    ins[i] = (ins[i][0], ins[i][1] & mask)
    return ins


def narrowed(lab, mask):
    if mask is None or type(lab.val) is not Rel:
        return lab
    return Lab(lab.val, with_mask(lab, lab.val.inst, mask), lab.nums)


def sstrip(ip, st, v, left, right, chars=None):
    """strip/lstrip/rstrip."""
    def cls(w):
        if w.strip(chars) == w and w != "":
            return "n"
        if w.strip(chars) == "":
            return "w"
        return "m"

    def lab_cls(lab):
        return classify(lab_state(lab), lab.val, cls)
    outs = []
    for ps in flatten(spieces(st, v)):
        if not any(p[0] == "P" for p in ps):
            # exact: peel from both ends
            cur = [(st, list(ps))]
            for side in ((0, left), (-1, right)):
                if not side[1]:
                    continue
                nxt = []
                while cur:
                    q, l = cur.pop()
                    if not l:
                        nxt.append((q, l))
                        continue
                    p = l[side[0]]
                    alts = classify(q, p[1], cls)
                    for k, (c, mask) in enumerate(alts):
                        x = q.copy() if k < len(alts) - 1 else q
                        if mask is not None:
                            x.narrow(p[1].inst, mask)
                        if c == "n":
                            nxt.append((x, l))
                        elif c == "w":
                            cur.append((x, l[1:] if side[0] == 0 else l[:-1]))
                        else:
                            fn = (lambda w: w.lstrip(chars)) if side[0] == 0 else (lambda w: w.rstrip(chars))
                            nv = smap(ip, x, p[1], fn, None)
                            for y, z in nv:
                                l2 = list(l)
                                l2[side[0]] = ("E", z)
                                nxt.append((y, l2))
                cur = nxt
            outs.extend((q, mkS(q, l)) for q, l in cur)
            continue
        # path: phases 'l' (leading), 'm' (middle), 't' (trailing part, dropped)

        def step(ts, lab):
            res = []
            for c, mask in lab_cls(lab):
                l2 = narrowed(lab, mask)
                if c == "m":
                    raise Imprecise("strip inside a word")
                if c == "w":
                    if ts == "l":
                        res.append((mask, "l", []))
                    elif ts == "m":
                        res.append((mask, "mw", [l2]))
                    elif ts == "mw":
                        res.append((mask, "mw", [l2]))
                    if right and ts in ("m", "t"):
                        res.append((mask, "t", []))
                else:
                    if ts in ("l", "m", "mw"):
                        res.append((mask, "m", [l2]))
            return res

        def final(ts):
            if ts == "mw" and right:
                return None
            return []
        for q, r in transduce(ip, st, ps, "l" if left else "m", step, final, False):
            outs.append((q, mkS(q, r)))
    return outs


def local_pattern(pat, words):
    """Is matching with this pattern decided character by character (one class, possibly repeated)?"""
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    tree = sp.parse(pat.pattern, pat.flags & ~re.DEBUG)

    def width1(items):
        items = list(items)
        if len(items) != 1:
            return None
        op, av = items[0]
        op = str(op)
        if op == "SUBPATTERN":
            return width1(av[3])
        if op in ("IN", "LITERAL", "NOT_LITERAL", "ANY", "CATEGORY"):
            return "1"
        if op in ("MAX_REPEAT",):
            lo, hi, sub = av
            if lo == 1 and str(hi) == "MAXREPEAT" and width1(sub) == "1":
                return "+"
            return None
        if op == "BRANCH":
            ws = [width1(x) for x in av[1]]
            if all(w == "1" for w in ws):
                return "1"
            return None
        return None
    return width1(tree)


def ssplit(ip, st, v, pat, what):
    """Tokenise a string: what in 'split' (re.split), 'findall', 'ws' (str.split()).

    Returns list of (state, list pieces)."""
    if what == "ws":
        spans = lambda w: [(m.start(), m.end()) for m in re.finditer(r"\s+", w)]
        keep, empties, kind = False, False, "+"
        match_is_sep = True
    else:
        kind = local_pattern(pat, None)
        if kind is None:
            raise Imprecise("pattern %r is not a character class" % pat.pattern)
        if pat.groups > 1:
            raise Imprecise("groups in %r" % pat.pattern)
        spans = lambda w: [(m.start(), m.end()) for m in pat.finditer(w)]
        keep, empties = pat.groups == 1, True
        match_is_sep = True
        if what == "findall":
            match_is_sep = False
            if pat.groups and not pat.pattern.startswith("("):
                raise Imprecise("groups in findall")

    def segs(w):
        """Cut a word: tuple of (is_match, text)."""
        out, i = [], 0
        for a, b in spans(w):
            if a > i:
                out.append((False, w[i:a]))
            out.append((True, w[a:b]))
            i = b
        if i < len(w):
            out.append((False, w[i:]))
        return tuple(out)
    outs = []
    for ps in flatten(spieces(st, v)):
        if match_is_sep and kind == "+" and any(p[0] == "P" for p in ps):
            outs.extend(split_runs(ip, st.copy(), ps, segs, keep, empties))
            continue

        # ts: (pending text label or None, pending match label or None, seen text since sep)
        def step(ts, lab):
            s = lab_state(lab)
            alts = classify(s, lab.val, lambda w: tuple((m, len(t)) for m, t in segs(w)))
            res = []
            for shape, mask in alts:
                l2 = narrowed(lab, mask)
                cur, pm, o = ts[0], ts[1], []
                pos = 0
                for j, (m, n) in enumerate(shape):
                    if len(shape) == 1:
                        part = l2
                    else:
                        part = part_lab(l2, pos, n)
                    pos += n
                    if match_is_sep:
                        if m:
                            if kind == "+" and pm is not None and cur is None:
                                pm = lab_concat(pm, part)
                                continue
                            if pm is not None and keep:
                                pass
                            if cur is not None:
                                o.append(cur)
                            elif empties:
                                o.append(Lab(EMPTY))
                            cur = None
                            if kind == "+":
                                pm = part
                            else:
                                if keep:
                                    o.append(part)
                                pm = None
                        else:
                            if pm is not None:
                                if keep:
                                    o.append(pm)
                                pm = None
                            cur = part if cur is None else lab_concat(cur, part)
                            if len(cur.insts) > 3:
                                raise Imprecise("adjacent words")
                    else:
                        if m:
                            if kind == "+":
                                cur = part if cur is None else lab_concat(cur, part)
                                if len(cur.insts) > 3:
                                    raise Imprecise("adjacent words")
                            else:
                                o.append(part)
                        else:
                            if cur is not None:
                                o.append(cur)
                                cur = None
                res.append((mask, (cur, pm), o))
            return res

        def final(ts):
            cur, pm = ts
            o = []
            if match_is_sep:
                if pm is not None and keep:
                    o.append(pm)
                if cur is not None:
                    o.append(cur)
                elif empties:
                    o.append(Lab(EMPTY))
            elif cur is not None:
                o.append(cur)
            return o
        for q, r in transduce(ip, st.copy(), ps, (None, None), step, final, True):
            outs.append((q, r))
    return outs


def part_lab(lab, pos, n):
    v = lab.val
    if type(v) is K:
        return Lab(K(v.v[pos:pos + n]))
    u, m = lab.insts[v.inst]
    tab = [None] * len(v.tab)
    for i in bits(m):
        tab[i] = v.tab[i][pos:pos + n]
    return Lab(Rel(v.inst, intern_tab(tab)), lab.insts, lab.nums)


def split_runs(ip, st, ps, segs, keep, empties):
    """Splitting on maximal runs of separators, over path pieces."""
    # one graph of atoms, each either text or separator
    gb = GB()
    cur = gb.node(("p", 0))
    A = cur
    for i, p in enumerate(ps):
        dst = gb.node(("p", i + 1))
        if p[0] == "E":
            gb.add(cur, make_lab(st, p[1]), dst)
        else:
            gb.splice(cur, p, dst, ("sp", i))
        cur = dst
    outs = []
    alts = gb.done(A, cur)
    for al in alts:
        if not al:
            outs.append((st.copy(), [("E", EMPTY)] if empties else []))
            continue
        _, g, a, b = al[0]
        sep, txt = Graph(), {}
        for n in g.out:
            sep.node(n)
        for n, es in g.out.items():
            for lab, m in es:
                for shape, mask in classify(lab_state(lab), lab.val, lambda w: tuple(x for x, _ in segs(w))):
                    l2 = narrowed(lab, mask)
                    if shape == (True,):
                        sep.add(n, l2, m)
                    elif shape == (False,):
                        txt.setdefault(n, []).append((l2, m))
                    else:
                        raise Imprecise("separator inside a word")
        h = GB()
        H = h.g
        start, end = h.node("start"), h.node("end")
        seen, todo = set(), []

        def node(k):
            if k not in seen:
                seen.add(k)
                todo.append(k)
            return h.node(k)
        # states: (n, 's') at a boundary where text may start; (n, 'x') just after a text
        h.eps.append((start, node((a, "s0"))))
        while todo:
            k = todo.pop()
            n, ph = k
            src = h.node(k)
            if ph == "x":
                if n == b:
                    h.eps.append((src, end))
                runs = [m for m in sep.forward(n) if any(m in sep.forward(y) for _, y in sep.out[n])]
                for m in runs:
                    lab = Lab(S([("P",) + freeze(sep, n, m)]))
                    if keep:
                        H.add(src, lab, node((m, "s")))
                    else:
                        h.eps.append((src, node((m, "s"))))
            else:
                runs = [(lab, m) for lab, m in txt.get(n, ())]
                while runs:
                    # texts that touch are one
                    lab, m = runs.pop()
                    H.add(src, len(lab.insts) > 1 and combined(lab) or lab, node((m, "x")))
                    for l2, m2 in txt.get(m, ()):
                        l3 = lab_concat(lab, l2)
                        if len(l3.insts) > 3:
                            raise Imprecise("adjacent words")
                        runs.append((l3, m2))
                if n == b:
                    if empties:
                        H.add(src, Lab(EMPTY), end)
                    else:
                        h.eps.append((src, end))
                if ph == "s0":
                    runs = [m for m in sep.forward(n) if any(m in sep.forward(y) for _, y in sep.out[n])]
                    for m in runs:
                        mid = h.node(("mid", n))
                        if empties:
                            H.add(src, Lab(EMPTY), mid)
                        else:
                            h.eps.append((src, mid))
                        lab = Lab(S([("P",) + freeze(sep, n, m)]))
                        if keep:
                            H.add(mid, lab, node((m, "s")))
                        else:
                            h.eps.append((mid, node((m, "s"))))
        for al2 in h.done(start, end):
            outs.append((st.copy(), list(al2)))
    if len(outs) > 1:
        for q, _ in outs:
            q.flag("fork")
    return outs


def sjoin(ip, st, sep, ps):
    """sep.join(list pieces)."""
    if not isinstance(sep, K):
        raise Imprecise("join with an abstract separator")

    def step(ts, lab):
        return [(None, 1, ([Lab(sep)] if ts and sep.v else []) + [lab])]
    if not any(p[0] == "P" for p in ps):
        out = []
        for i, p in enumerate(ps):
            if i and sep.v:
                out.append(("E", sep))
            out.append(p)
        return [(st, mkS(st, out))]
    return [(q, mkS(q, r)) for q, r in transduce(ip, st, ps, 0, step, lambda ts: [], False)]


def slen(st, v):
    """(min, max or None) length in characters."""
    lo = hi = 0
    for p in spieces(st, v):
        if p[0] == "E":
            a, b = vlen(st, p[1])
        else:
            _, g, x, y = p
            r = g.lengths(x, y)
            if r is None:
                raise Imprecise("empty path")
            a, b = (0 if r[0] == 0 else 1), (0 if r[1] == 0 else None)
        lo += a
        hi = None if hi is None or b is None else hi + b
    return lo, hi


def vlen(st, v):
    if type(v) is K:
        return len(v.v), len(v.v)
    if type(v) is Rel:
        u, m = st.ins[v.inst]
        ls = [len(v.tab[i]) for i in bits(m)]
        return min(ls), max(ls)
    if type(v) is IS:
        return 1, None
    if type(v) is S:
        return slen(st, v)
    return 0, None


def all_atoms(ip, st, v, f):
    """Does f hold of every atom / of no atom / of some: set of booleans."""
    res = set()
    for ps in flatten(spieces(st, v)):
        for p in ps:
            if p[0] == "E":
                res |= {bool(c) for c, _ in classify(st, p[1], f)}
            else:
                for lab in all_labs(p):
                    res |= {bool(c) for c, _ in classify(lab_state(lab), lab.val, f)}
    return res


def sfind(ip, st, v, needle, last=False):
    """First occurrence of a constant: list of (state, (before, atom, offset, after) or None)."""
    if last or not needle:
        raise Imprecise("rfind")
    fail = [0] * len(needle)
    k = 0
    for i in range(1, len(needle)):
        while k and needle[i] != needle[k]:
            k = fail[k - 1]
        if needle[i] == needle[k]:
            k += 1
        fail[i] = k

    def run(s, w):
        for i, c in enumerate(w):
            while s and c != needle[s]:
                s = fail[s - 1]
            if c == needle[s]:
                s += 1
            if s == len(needle):
                return ("hit", i + 1 - len(needle))
        return ("no", s)
    outs = []
    for ps in flatten(spieces(st, v)):
        if not any(p[0] == "P" for p in ps):
            cur = [(st.copy(), 0, 0)]
            while cur:
                q, i, s = cur.pop()
                if i == len(ps):
                    outs.append((q, None))
                    continue
                alts = classify(q, ps[i][1], lambda w: run(s, w))
                for c, mask in alts:
                    x = q.copy()
                    if mask is not None:
                        x.narrow(ps[i][1].inst, mask)
                    if c[0] == "hit":
                        if c[1] < 0:
                            raise Imprecise("match across words")
                        outs.append((x, (ps[:i], ps[i][1], c[1], ps[i + 1:])))
                    else:
                        cur.append((x, i + 1, c[1]))
            continue
        # product with the search automaton
        gb = GB()
        todo, seen = [], set()

        def node(k):
            if k not in seen:
                seen.add(k)
                todo.append(k)
            return gb.node(k)

        def first(i):
            return ps[i][2] if i < len(ps) and ps[i][0] == "P" else None
        A = node((0, first(0), 0))
        hits, ends = [], []
        while todo:
            k = todo.pop()
            i, n, s = k
            src = gb.node(k)
            if i == len(ps):
                ends.append(k)
                continue
            p = ps[i]
            if p[0] == "E":
                edges = [(make_lab(st, p[1]), None, (i + 1, first(i + 1)))]
            else:
                _, g, x, y = p
                live = g.reaches(y)
                edges = [(lab, m, (i, m)) for lab, m in g.out[n] if m in live]
                if n == y:
                    gb.eps.append((src, node((i + 1, first(i + 1), s))))
            for lab, m, (i2, n2) in edges:
                for c, mask in classify(lab_state(lab), lab.val, lambda w: run(s, w)):
                    l2 = narrowed(lab, mask)
                    if c[0] == "hit":
                        if c[1] < 0:
                            raise Imprecise("match across words")
                        rest = ps[i + 1:]
                        if p[0] == "P":
                            after = ((("P", p[1], m, p[3]),) if (m != p[3] or p[1].out[m]) else ()) + tuple(rest)
                        else:
                            after = tuple(rest)
                        hits.append((k, l2, c[1], after))
                    else:
                        gb.add(src, l2, node((i2, n2, c[1])))
        res = []
        for k, lab, off, after in hits:
            for al in gb.done(A, gb.node(k)):
                q = st.copy()
                val, _ = inst_lab(q, lab)
                res.append((q, (tuple(al), val, off, after)))
        if any(gb.done(A, gb.node(k)) for k in ends):
            res.append((st.copy(), None))
        outs.extend(res)
    return outs


def drop_chars(ip, st, ps, k):
    """Remove the first k characters of pieces whose first atoms are exact."""
    ps = list(ps)
    while k > 0:
        if not ps:
            break
        p = ps.pop(0)
        if p[0] != "E":
            raise Imprecise("slice inside an abstract string")
        lo, hi = vlen(st, p[1])
        if lo == hi and hi is not None and hi <= k:
            k -= hi
            continue
        if type(p[1]) in (K, Rel) and lo > k:
            for q, v in smap(ip, st, p[1], lambda w: w[k:], None):
                return [("E", v)] + ps
        raise Imprecise("slice inside an abstract string")
    return ps


def slice_from(ps, k):
    return ps
