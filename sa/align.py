"""Is every output text of an analysis the input text with its number phrases replaced by their values?

The output (a value of the analysis) is read piece by piece against the input graph.  A configuration is
(input position, kind of the last item, whitespace skipped in the input, whitespace seen in the output); every path
of the output must keep at least one configuration alive and end in a final one.
"""
import re

from .vals import *
from .state import *
from .strs import spieces, mkS


class Grammar:
    """Positions of the input graph, with the whitespace moves between them."""

    def __init__(self, W, finals, start, verbatim=False, keepnum=False):
        self.W, self.start, self.finals = W, start, set(finals)
        self.verbatim = verbatim
        self.keepnum = keepnum
        self.canon = W.canonpos
        self.wsm = {}
        self.eps = {}
        self.numdst = {}
        for n in W.g.out:
            for lab, m in W.g.out[n]:
                u = lab.insts[0][0]
                if u.kind == "ws":
                    self.wsm.setdefault(u.src, set()).add(u.dst)
                if u.kind == "num":
                    self.numdst.setdefault(self.canon(u.dst), set()).add(u.dst)
        for a, b in getattr(W, "eps_", ()):
            self.eps.setdefault(a, set()).add(b)
        self.phrases = {(self.canon(a), self.canon(b)) for a, b in W.phrases}
        self._clo = {}

    def closure(self, p):
        """Positions reachable by whitespace: {(node, some whitespace was passed)}."""
        r = self._clo.get(p)
        if r is None:
            r = {(p, False)}
            todo = [(p, False)]
            while todo:
                n, f = todo.pop()
                for m in self.eps.get(n, ()):
                    if (m, f) not in r:
                        r.add((m, f))
                        todo.append((m, f))
                for m in self.wsm.get(n, ()):
                    if (m, True) not in r:
                        r.add((m, True))
                        todo.append((m, True))
            self._clo[p] = r
        return r

    def init(self):
        if self.verbatim:
            return frozenset((p, None, False, False) for p, w in self.closure(self.start))
        return frozenset([(self.start, None, False, False)])

    def gap_ok(self, prev, kind, need, sp):
        if prev is None:
            return True
        if need and not sp:
            return False
        if sp and not need:
            if prev == "num" and kind == "sep":
                return False
            if not (prev == "num" or prev == "conn" or kind == "num"):
                return False
        return True

    def space(self, cs):
        if self.verbatim:
            return frozenset()
        return frozenset((p, k, n, True) for p, k, n, s in cs)

    def copy(self, cs, u):
        """The word of edge u is written out unchanged."""
        out = set()
        if self.verbatim:
            return frozenset((u.dst, None, False, False) for p, k, n, s in cs
                             for q, w in self.closure(p) if q == u.src and not w)
        for p, k, n, s in cs:
            for q, w in self.closure(p):
                if q == u.src and self.gap_ok(k, u.kind, n or w, s):
                    nk = "conn" if u.kind == "skip" and k in ("num", "conn") else u.kind
                    out.add((u.dst, nk, False, False))
        return frozenset(out)

    def number(self, cs, sym):
        """The value of the phrase sym = ('V', s, e) is written out."""
        out = set()
        if sym[1:] not in self.phrases:
            return frozenset()      # a part of a number
        for p, k, n, s in cs:
            for q, w in self.closure(p):
                if self.canon(q) == sym[1] and self.gap_ok(k, "num", n or w, s):
                    for d in self.numdst.get(sym[2], ()):
                        out.add((d, "num", False, False))
        return frozenset(out)

    def final(self, cs):
        return any(q in self.finals for p, k, n, s in cs for q, w in self.closure(p))


def step(ip, st, G, cs, v):
    """All configuration sets after the output piece v, with a reason when the piece itself is wrong."""
    t = type(v)
    if t is K:
        return const(ip, st, G, cs, v.v)
    if t is IS:
        ln = st.simp(st.nums[v.id][0])
        if ln is not None and len(ln) == 1 and ln[0][1] == 1 and ln[0][0][0] == "V":
            r = G.number(cs, ln[0][0])
            return [(r, None if r else "a number is written at the wrong place")]
        if ln is not None and lin_is_const(ln):
            return const(ip, st, G, cs, str(ln[0][1] if ln else 0))
        return [(frozenset(), "a number is written that is not the value of one phrase (%s)" % (ln,))]
    if t is Rel:
        u, m = st.ins[v.inst]
        same = all_same = 0
        groups = {}
        for w in bits(m):
            x = v.tab[w]
            if not isinstance(x, str):
                return [(frozenset(), "a word is replaced by %r" % (x,))]
            if x == u.words[w] and (u.kind != "ws" or G.verbatim):
                key = ("copy",)
            else:
                key = []
                if "\xad" in u.words[w] and x == u.words[w].replace("\xad", "") and u.kind == "other":
                    groups.setdefault(("copy",), []).append(w)
                    continue
                for part in re.findall(r"\s+|\S+", x):
                    if part.isspace():
                        key.append("ws")
                    elif part == u.words[w]:
                        key.append("copy")
                    elif u.act is not None and part == str(single(u, w)):
                        key.append("num")
                    else:
                        key.append(("const", part))
                key = tuple(key)
            groups.setdefault(key, []).append(w)
        out = []
        for key, ws in groups.items():
            cur = [(cs, None)]
            for k in key:
                nxt = []
                for c, why in cur:
                    if not c:
                        nxt.append((c, why))
                    elif k == "copy":
                        if u.kind == "num" and not G.keepnum:
                            nxt.append((frozenset(), "the number word %r is left as it is" % u.words[ws[0]]))
                            continue
                        r = G.copy(c, u)
                        nxt.append((r, None if r else
                                    "the word %r is out of place, lost, repeated or run together" % u.words[ws[0]]))
                    elif k == "ws":
                        nxt.append((G.space(c), None))
                    elif k == "num":
                        r = G.number(c, ("V", G.canon(u.src), G.canon(u.dst)))
                        nxt.append((r, None if r else "a number is written at the wrong place"))
                    else:
                        for r in const(ip, st, G, c, k[1]):
                            nxt.append((r[0], r[1] and "%r becomes %r" % (u.words[ws[0]], k[1])))
                cur = nxt
            out.extend(cur)
        return out
    if t is S:
        cur = [(cs, None)]
        for p in v.pieces:
            if p[0] != "E":
                return [(frozenset(), "nested text")]
            cur = [y for c, why in cur for y in (step(ip, st, G, c, p[1]) if c else [(c, why)])]
        return cur
    return [(frozenset(), "the result is no text")]


def single(u, w):
    return sum(c * (u.vals[w] if s == "v" else 1 if s == ONE else 0) for _, e in u.act for s, c in e)


def const(ip, st, G, cs, s):
    cur = cs
    for part in re.findall(r"\s+|\d+|[^\d\s]+", s):
        if part.isspace():
            cur = G.space(cur)
            continue
        nxt = set()
        if part.isdigit():
            c = int(part)
            from .loops import known_value
            sym = known_value(st, part)
            if sym is not None:
                nxt |= G.number(cur, sym)
        # a constant text may be the only word an edge can be
        for n in G.W.g.out:
            for lab, m in G.W.g.out[n]:
                u = lab.insts[0][0]
                if u.kind != "num" and u.words == (part,):
                    nxt |= G.copy(cur, u)
        cur = frozenset(nxt)
        if not cur:
            return [(cur, "%r is written where it does not belong" % part)]
    return [(cur, None)]


def lab_of(v, st):
    t = type(v)
    if t is Rel:
        u, m = st.ins[v.inst]
        return [(u, m)]
    if t is IS:
        ln = st.nums[v.id][0]
        if ln and len(ln) == 1 and ln[0][0][0] == "V":
            return [ln[0][0]]
    return []


def aligned(ip, st, v, G):
    """None when every text v may be is right; else (why, trace of universes leading there)."""
    ps = spieces(st, v)
    if ps is None:
        return ("the result is no text", None)
    from .loops import inst_lab
    start = (0, None, G.init())
    seen = {start: (None, None)}
    todo = [start]

    def trace(s):
        out = []
        while s is not None:
            s2, tr = seen[s]
            if tr:
                out.extend(reversed(tr))
            s = s2
        out.reverse()
        return [x for x in out if isinstance(x[0], Uni)]
    while todo:
        s = todo.pop()
        i, node, cs = s
        if i == len(ps):
            if not G.final(cs):
                return ("text is missing at the end", trace(s))
            continue
        p = ps[i]
        moves = []
        if p[0] == "E":
            q = st.copy()
            for c, why in step(ip, q, G, cs, p[1]):
                moves.append(((i + 1, None, c), why, lab_of(p[1], q)))
        else:
            _, g, a, b = p
            n = a if node is None else node
            if n == b and node is None and a == b:
                moves.append(((i + 1, None, cs), None, []))
            live = g.reaches(b)
            for lab, m in g.out[n]:
                if m not in live:
                    continue
                q = st.copy()
                val, _ = inst_lab(q, lab)
                for c, why in step(ip, q, G, cs, val):
                    tr = lab_of(val, q)
                    if m == b:
                        moves.append(((i + 1, None, c), why, tr))
                        if any(x in live for _, x in g.out[b]):
                            moves.append(((i, b, c), why, tr))
                    else:
                        moves.append(((i, m, c), why, tr))
        for t, why, tr in moves:
            if not t[2]:
                return (why or "wrong text", trace(s) + [x for x in tr if isinstance(x[0], Uni)])
            if t not in seen:
                seen[t] = (s, tr)
                todo.append(t)
                if len(seen) > 400000:
                    raise Imprecise("output too large to check")
    return None


def expected(path, verbatim=False):
    """Regular expression of the texts parse may give for a concrete path, and a readable form."""
    items = path.items()
    rx, show = "", []
    prev = None
    for k, x, ws in items:
        txt = str(x) if k == "num" else x.replace("\xad", "")
        kind = k
        if prev is not None:
            if ws:
                rx += r"\s+"
            elif prev == "num" and kind == "sep":
                pass
            elif prev in ("num", "conn") or kind == "num":
                rx += r"\s*"
            show.append(" " if ws else "")
        rx += re.escape(txt)
        show.append(txt)
        prev = "conn" if k == "skip" and prev in ("num", "conn") else kind
    return rx, "".join(show)


def text_oracle(path):
    rx, show = expected(path)
    c = re.compile(rx + r"\Z")
    return (lambda y: isinstance(y, str) and c.match(y) is not None), repr(show)
