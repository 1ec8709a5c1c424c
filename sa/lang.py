"""Reference lexicons and the grammars of number phrases and texts (the specification side)."""
import json
import os
import sys
import unicodedata

from .vals import *

HERE = os.path.dirname(os.path.abspath(__file__))
LANGS = ("en", "es", "hi", "ru", "uk")
WS = tuple(c for c in map(chr, range(sys.maxunicode + 1)) if c.isspace())
WS_FEW = (" ", "\t", "\n", "\u00a0", "\u3000")


class Lex:
    def __init__(self, lang):
        with open(os.path.join(HERE, "lexicon", lang + ".json"), encoding="utf-8") as f:
            d = json.load(f)
        self.lang = lang
        self.unit, self.direct, self.tens, self.hundreds, self.scale = (
            d[k] for k in ("unit", "direct", "tens", "hundreds", "scale"))
        self.connectors = d["connectors"]
        self.ordinals = d.get("ordinals", {})
        self.long = d["long_scale"]
        self.all = {}
        for k in ("unit", "direct", "tens", "hundreds", "scale"):
            self.all.update(d[k])
        self.scales = sorted({v for v in self.scale.values()}, reverse=True)

    def words(self, role, val=None):
        return [w for w, v in getattr(self, role).items() if val is None or v == val]


_LEX = {}


def lex(lang):
    if lang not in _LEX:
        _LEX[lang] = Lex(lang)
    return _LEX[lang]


# ------------------------------------------------------------------ spelling variants
def strip_marks(w):
    return "".join(c for c in unicodedata.normalize("NFD", w) if unicodedata.category(c) != "Mn")


def same_letters(w, v):
    """v is w up to case and accents, by the reference definition."""
    return strip_marks(w.lower()) == strip_marks(v.lower())


def v_plain(w):
    return [w]


def v_case(w):
    return [w, w.capitalize(), w.upper(), w[:-1] + w[-1:].upper()]


def v_accents(w):
    out = [unicodedata.normalize("NFC", w), unicodedata.normalize("NFD", w)]
    if any("\u0300" <= c <= "\u036f" for c in unicodedata.normalize("NFD", w)):
        out.append("".join(c for c in unicodedata.normalize("NFD", w) if not "\u0300" <= c <= "\u036f"))
    # an accent on a letter that carries none: composed and decomposed
    for i, c in enumerate(w):
        if c.lower() in "aeiouаеиоуыія":
            for m in ("\u0301", "\u0308"):
                out.append(w[:i + 1] + m + w[i + 1:])
                out.append(unicodedata.normalize("NFC", w[:i + 1] + m + w[i + 1:]))
            break
    return out


def v_shy(w):
    return [w[:1] + "\xad" + w[1:], w[:-1] + "\xad" + w[-1:], "\xad" + w, w + "\xad"]


def v_all(w):
    out = []
    for x in v_accents(w):
        out.extend(v_case(x))
    out.extend(v_shy(w))
    return out


def v_c12(w):
    out = []
    for x in v_accents(w):
        out.extend((x, x.capitalize(), x.upper()))
    out.extend(v_shy(w))
    return out


# ------------------------------------------------------------------ graphs of words
class Words:
    """Builds the input graph of an analysis: every edge is a universe of raw words."""

    def __init__(self, lang, variants=v_plain, apostrophes=True):
        self.lx = lex(lang)
        self.conns = self.lx.connectors
        self.lang = lang
        self.g = Graph()
        self.variants = variants
        self.uf = {}
        self.apostrophes = apostrophes
        self.info = {}
        self.n_edges = 0
        self.allowed = None      # predicate on the number words used
        self.phrases = []        # (start, end) of whole numbers

    def node(self, name=None):
        return self.g.node(name)

    def edge(self, a, b, name, words, kind, vals=None, act=None, newseg=False, brk=False, tag=None):
        seen, ws, vs = set(), [], []
        for i, w in enumerate(words):
            if w not in seen:
                seen.add(w)
                ws.append(w)
                if vals is not None:
                    vs.append(vals[i])
        u = Uni(name, ws, kind, vs if vals is not None else None, act, newseg, brk, a, b, tag)
        self.g.add(a, Lab(u.ident(0), ((u, u.full),)), b)
        self.n_edges += 1
        return u

    # -- neutral material
    def ws(self, a, b, words=WS, tag=None):
        """One or more whitespace characters from a to b."""
        m = self.node()
        self.same(a, b)
        self.same(a, m)
        self.edge(a, b, "ws", words, "ws", tag=tag)
        self.edge(a, m, "ws", words, "ws", tag=tag)
        self.edge(m, m, "ws", words, "ws", tag=tag)
        self.edge(m, b, "ws", words, "ws", tag=tag)

    def find(self, x):
        while x in self.uf:
            x = self.uf[x]
        return x

    def same(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.uf[max(a, b)] = min(a, b)

    def gap(self, a, b, few=False):
        """What may stand between two words of one number: whitespace and connecting words."""
        W = WS_FEW if few else WS
        self.ws(a, b, W)
        hy = [c for c in self.conns if not c[0].isalpha()]
        al = [c for c in self.conns if c[0].isalpha()]
        if hy:
            # hyphen with optional whitespace around
            x, y = self.node(), self.node()
            self.same(a, x)
            self.same(a, y)
            self.ws(a, x, W)
            self.ws(y, b, W)
            for p in (a, x):
                for q in (y, b):
                    self.edge(p, q, "hyphen", hy, "skip")
        if al:
            x, y = self.node(), self.node()
            self.same(a, x)
            self.same(a, y)
            self.ws(a, x, W)
            words = [v for c in al for v in (c, c.upper(), c.capitalize())]
            self.edge(x, y, "and", words, "skip")
            self.ws(y, b, W)

    # -- number words
    def num(self, a, b, role, act, val=None, lo=None, hi=None, newseg=False, ordinal=False, tag=None):
        lx = self.lx
        words, vals = [], []
        for w, v in getattr(lx, role).items():
            if val is not None and v != val:
                continue
            if lo is not None and v < lo or hi is not None and v > hi:
                continue
            if ordinal:
                w = lx.ordinals[w]
            if not self.apostrophes and any(c in w for c in "'’"):
                continue
            if self.allowed is not None and not self.allowed(w):
                continue
            for x in self.variants(w):
                words.append(x)
                vals.append(v)
        if not words:
            return None
        return self.edge(a, b, role + ("" if val is None else str(val) if val < 10 ** 6 else
                                       "1e%d" % (len(str(val)) - 1)) + (".ord" if ordinal else ""),
                         words, "num", vals, act, newseg, tag=tag)

    # -- canonical cardinals
    def cardinal(self, a, b, scales=None, few=False, zero=True, ordinal=False, tag=None, bare=True):
        """The well-formed numbers between positions a and b.

        Registers: T value of the finished scale groups, M finished 'mil' part of a Spanish group, G value of the
        group being read; the value of the phrase is T + M + G.  With `ordinal`, the last word is ordinal.
        """
        lx = self.lx
        self.phrases.append((a, b))
        if scales is None:
            scales = lx.scales
        es = lx.lang == "es"
        inner100 = 100 if 100 in scales else None
        mil = 1000 if es and 1000 in scales else None
        tops = [s for s in scales if s != inner100 and s != mil]
        add = (("G", (("G", 1), ("v", 1))),)
        kw = {"tag": tag}
        if zero and bare:
            self.num(a, b, "unit", add, 0, ordinal=ordinal, **kw)
        zlo = 0 if zero and not bare else 1

        def emit(x, targets, role, act, **k):
            """A number word from x to each of the targets; END targets take ordinals in an ordinal phrase."""
            for t in targets:
                self.num(x, t, role, act, ordinal=ordinal and t == b, **dict(kw, **k))

        def gapped(x):
            y = self.node()
            self.same(x, y)
            self.gap(x, y, few)
            return y

        def group(S, done, G100):
            """Words of one group (1..999) from S; `done` are the targets after a complete group."""
            # tens/units part from node x
            def small(x):
                if x == a and zlo == 0:
                    emit(x, [b], "unit", add, lo=0)
                    emit(x, [d for d in done if d != b], "unit", add, lo=1)
                else:
                    emit(x, done, "unit", add, lo=1)
                emit(x, done, "direct", add)
                emit(x, done, "tens", add)
                if lx.tens:
                    t = self.node()
                    emit(x, [t], "tens", add)
                    emit(gapped(t), done, "unit", add, lo=1)
            small(S)
            if inner100:
                h = self.node()
                u = self.node()
                emit(S, [u], "unit", add, lo=1)
                mul = (("G", (("G", 100),)),)
                emit(gapped(u), done + [h], "scale", mul, val=100)
                if G100:      # bare hundred
                    emit(S, done + [h], "scale", (("G", ((ONE, 100),)),), val=100)
                small(gapped(h))
            if lx.hundreds:
                h = self.node()
                emit(S, done + [h], "hundreds", add)
                small(gapped(h))

        nodes = {}

        def level(k):
            """Start node of the part after scale k (None: the whole)."""
            n = nodes.get(k)
            if n is None:
                n = nodes[k] = self.node()
            return n

        def build(k, S, later, first):
            """From S: a last group, or a group and a smaller scale word (then the rest)."""
            done = [b]
            R = None
            if later:
                R = self.node()
                done.append(R)
            if mil:
                # group := small | [small] mil [small]
                M = self.node()
                m = self.node()
                group(S, done, first)
                milact = (("M", (("G", 1000),)), ("G", ()))
                # a group ending in mil: "dos mil millones" / "dos mil"
                g1 = self.node()
                group(S, [g1], first)
                emit(gapped(g1), done + [m], "scale", milact, val=1000)
                if bare or k is not None:
                    emit(S, done + [m], "scale", (("M", ((ONE, 1000),)), ("G", ())), val=1000)
                group(gapped(m), done, False)
            else:
                group(S, done, first)
            if later:
                Rg = gapped(R)
                for j in later:
                    act = (("T", (("T", 1), ("G", j), ("M", j))), ("M", ()), ("G", ()))
                    t = [b]
                    if nxt[j] is not None:
                        t.append(nxt[j])
                    emit(Rg, t, "scale", act, val=j)
                    if first:       # bare leading scale word
                        emit(S, t, "scale", (("T", ((ONE, j),)),), val=j)

        nxt = {}
        starts = {}
        for j in tops:
            x = self.node()
            nxt[j] = x
        for j in tops:
            starts[j] = gapped(nxt[j])
        build(None, a, tops, bare)
        for i, j in enumerate(tops):
            build(j, starts[j], tops[i + 1:], False)

    def pieces(self, a, b):
        return (("P", self.g, a, b),)

    def canonpos(self, p):
        return self.find(p)
