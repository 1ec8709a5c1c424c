"""Grammars of whole texts: ordinary words, punctuation, separators and number phrases around a marked element."""
import ast
import os
import re

from .vals import *
from .lang import *
from .strs import GB

OTHER = {
    "en": ["cows", "co\xadws", "\xadzebra", "I", "someone", "oneself", "tent", "health", "ones", "seventies", "firstborn", "Caf\u00e9", "na\u00efve", "Z\u00dcRICH",
           "e\u0301te\u0301", "\u65e5\u672c", "\u043f\u0440\u0438\u0432\u0435\u0442", "\u0939\u092e", "snake_case",
           "x2", "3rd", "dos", "\u00bd", "\u00b2", "th", "ieth", "tenths", "hundredweight", "y", "landing", "oncologist", "ho\u0327t"],
    "es": ["vacas", "va\xadcas", "A\u00d1O", "alguno", "Ninguna", "oncena", "ma\u00f1ana", "mile\u0301simo", "treintena", "doscientosavo", "cows",
           "two", "\u65e5\u672c", "\u0434\u0432\u0430", "x2", "3ro", "\u00bd", "and", "Segundo", "e", "th", "millar", "pap\u00e1"],
    "hi": ["\u0917\u093e\u092f", "\u0928\u092e\u0938\u094d\u0924\u0947", "cows", "co\xadws", "two", "Caf\u00e9", "\u090f\u0915\u0924\u093e", "\u0926\u094b\u0928\u094b\u0902",
           "\u0938\u093e\u0924\u0935\u093e\u0901", "x2", "3rd", "\u00bd", "and", "\u65e5\u672c", "\u0926\u0938!", "(\u0917\u093e\u092f)", "\u0939\u0948\u0964"],
    "ru": ["\u043a\u043e\u0440\u043e\u0432\u044b", "\u0401\u043b\u043a\u0430", "\u0439\u043e\u0433", "\u0441\u0442\u043e\u043b", "\u0441\u0435\u043c\u044c\u044f", "\u0422\u0440\u0438\u0437\u043d\u0430",
           "\u0434\u0432\u0430\u0436\u0434\u044b", "\u043f\u0435\u0440\u0432\u044b\u0439", "cows", "two", "Caf\u00e9", "x2", "\u65e5\u672c", "\u00bd", "and", "\u0438", "\u044f\u0301", "\u0441\u0442\xad\u043e\u043b"],
    "uk": ["\u043a\u043e\u0440\u043e\u0432\u0438", "\u0407\u0436\u0430\u043a", "\u0441\u0442\u0456\u043b", "\u0421\u0456\u043c\u02bc\u044f", "\u0442\u0440\u0438\u0447\u0456", "\u043f\u0435\u0440\u0448\u0438\u0439", "\u044f\u0301\u043a",
           "cows", "two", "Caf\u00e9", "x2", "\u65e5\u672c", "\u00bd", "and", "\u0456", "\u0442\u0430", "\u0441\u0442\xad\u0456\u043b"],
}
PUNCT = ["!", "?", ";", ":", "(", ")", "[", "]", '"', "/", "&", "%", "$", "*", "+", "=", "<", ">", "@", "#", "~", "\u2026",
         "\u2013", "\u201c", "\u201d", "\u00bf", "\u00a1", "\u20ac", "\u00ab", "\u00bb", "\u0964", "\u200b", "\u093e"]
APOS = ["'", "\u2019"]
SEP = [".", ","]
DIGITS = ["0", "7", "42", "007", "1000", "\u0662", "\u096b", "\uff13"]


def harvest(repo):
    """String constants of the package's own modules (not of its data): words a program may single out."""
    out = []
    pk = os.path.join(repo, "number_parser")
    for f in sorted(os.listdir(pk)):
        if not f.endswith(".py"):
            continue
        try:
            with open(os.path.join(pk, f), encoding="utf-8") as h:
                tree = ast.parse(h.read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 and n.value not in out:
                out.append(n.value)
    return out


def harvest_ints(repo):
    """Integer constants of the package's own modules that could be a length the program singles out."""
    out = set()
    pk = os.path.join(repo, "number_parser")
    for f in sorted(os.listdir(pk)):
        if f.endswith(".py"):
            try:
                with open(os.path.join(pk, f), encoding="utf-8") as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, OSError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) is int and 7 < n.value <= 2500:
                    out.add(n.value)
    return sorted(out)


def is_numberish(lx, w):
    """Is w a number word, ordinal or connector of the language up to case, accents and soft hyphens?"""
    n = strip_marks(w.replace("\xad", "").lower())
    if n in norm_all(lx) or n in [strip_marks(c) for c in lx.connectors]:
        return True
    if lx.lang == "en" or True:
        # forms the ordinal rules could be understood to cover
        for o, c in (("first", "one"), ("second", "two"), ("third", "three"), ("fifth", "five"), ("eighth", "eight"),
                     ("ninth", "nine"), ("twelfth", "twelve")):
            n2 = n.replace(o, c)
            if n2 in norm_all(lx) or n2.endswith("th") and n2[:-2] in norm_all(lx):
                return True
        if n.endswith("ieth") and n[:-4] + "y" in norm_all(lx) or n.endswith("th") and n[:-2] in norm_all(lx):
            return True
    return False


_NORM = {}


def norm_all(lx):
    r = _NORM.get(lx.lang)
    if r is None:
        r = _NORM[lx.lang] = {strip_marks(w.lower()): v for w, v in lx.all.items()}
    return r


_FOREIGN = {}


def foreign(lang):
    """Number words of the other supported languages that mean nothing in this one."""
    if lang not in _FOREIGN:
        out = []
        for o in LANGS:
            if o == lang:
                continue
            for w in list(lex(o).all) + list(lex(o).ordinals.values()):
                if not any(c in w for c in "'\u2019") and not is_numberish(lex(lang), w) and w not in out:
                    out.append(w)
        _FOREIGN[lang] = out
    return _FOREIGN[lang]


_EXCL = {}


def only_in(lang):
    """Predicate: a number word of no language but this one."""
    def f(w):
        r = _EXCL.get((lang, w))
        if r is None:
            r = _EXCL[lang, w] = not any(is_numberish(lex(o), x) for o in LANGS if o != lang
                                         for x in [w, w.replace("'", "").replace("\u2019", "")] +
                                         ([] if o == "hi" else re.split(r"[^\w\u0300-\u036f]", w)) if x)
        return r
    return f


class Text(Words):
    """exclusive: only words that are number words or connecting words of this language or of none."""

    def __init__(self, lang, repo=None, variants=v_plain, apostrophes=False, foreign_words=False, exclusive=False):
        super().__init__(lang, variants, apostrophes)
        if exclusive:
            self.allowed = only_in(lang)
            self.conns = [c for c in self.conns if c[0].isalpha()]
        self.repo = repo
        self.eps_ = []
        self.blanks = WS_FEW
        self.short = False       # number phrases of one word
        hi = lang == "hi"
        self.hi = hi
        words = list(OTHER[lang])
        found, marks = [], []
        if repo:
            for c in harvest(repo):
                for w in (c, c + "s", "x" + c, c.upper(), c.capitalize()):
                    if re.fullmatch(r"[^\W\d]\w*", w) and w not in words and not is_numberish(self.lx, w):
                        words.append(w)
                        found.append(w)
                # (marks the program singles out)
                for x in [c] if len(c) < 3 else c if len(c) < 12 else ():
                    if re.fullmatch(r"[^\w\s.,\u0300-\u036f]", x) and x not in PUNCT + APOS + ["-", "\xad"] + marks:
                        marks.append(x)
        signs = []
        if foreign_words:
            # words that are cut at their vowel signs: any sequence of their parts
            words = []
            for w in foreign(lang):
                for x in [w] if hi else re.split(r"([^\w\u0300-\u036f])", w):
                    if re.fullmatch(r"[^\w\u0300-\u036f]", x) and not hi:
                        signs += [x] if x not in signs else []
                    elif x and x not in words:
                        words.append(x)
        self.other_words = [w for w in words if not is_numberish(self.lx, w)]
        self.punct_words = list(PUNCT) + marks + APOS
        self.punct_words += [x for x in signs if x not in self.punct_words]
        if hi:
            self.punct_words = [p for p in self.punct_words] + ["-", "...", "!?"]
        else:
            self.punct_words += [c for c in ("-",) if c not in self.lx.connectors]
        if exclusive:
            ws = [w for w in self.other_words if self.allowed(w) and re.fullmatch(r"[\w\u0300-\u036f]+", w)]
            self.other_words = [w for w in ws if w not in found][:24] + [w for w in ws if w in found][:40]
            named = set(harvest(repo)) if repo else set()
            ws = [w for w in self.punct_words if self.allowed(w) and w not in APOS + ["-"]]
            self.punct_words = [w for w in ws if w not in named][:9] + [w for w in ws if w in named]

    def eps(self, a, b):
        self.eps_.append((a, b))

    # -- single elements
    def other(self, a, b, tag=None, words=None):
        return self.edge(a, b, "word", words or self.other_words, "other", brk=True, tag=tag)

    def punct(self, a, b, tag=None, words=None):
        return self.edge(a, b, "punct", words or self.punct_words, "punct", brk=True, tag=tag)

    def sep(self, a, b, tag=None):
        return self.edge(a, b, "sep", SEP, "sep", brk=True, tag=tag)

    def digits(self, a, b, tag=None):
        return self.edge(a, b, "digits", DIGITS, "digits", brk=True, tag=tag)

    def conn(self, a, b, alpha=None, tag=None):
        ws = [c for c in self.conns if alpha is None or c[0].isalpha() == alpha]
        ws = [v for c in ws for v in ((c, c.upper(), c.capitalize()) if c[0].isalpha() else (c,))]
        if ws:
            return self.edge(a, b, "conn", ws, "skip", tag=tag)
        return None

    def spaces(self, a, b, tag=None):
        """ws+ from a to b, without identifying the two positions."""
        if a == b:
            self.edge(a, a, "ws", self.blanks, "ws", tag=tag)
            return
        m = self.node()
        self.edge(a, m, "ws", self.blanks, "ws", tag=tag)
        self.edge(m, m, "ws", self.blanks, "ws", tag=tag)
        self.eps(m, b)

    # -- free text around a marked element
    def context(self, numbers=True, scales=None, ordinals=True, digits=True):
        """Any text whose number phrases are well formed and kept apart; returns its nodes."""
        n = self.places(numbers)
        self.blanks_at(n)
        self.items(n, n, numbers, scales, ordinals, digits)
        return n

    def tracked(self, numbers=True, scales=None, ordinals=True, digits=True, blank=False):
        """Any such text with one item singled out: (nodes before it, nodes after it)."""
        n, d = self.places(numbers), self.places(numbers)
        for x in (n, d):
            self.blanks_at(x)
            self.items(x, x, numbers, scales, ordinals, digits)
        # the places right after a singled out number are its own
        m = dict(self.places(numbers), B=d["B"], W=d["W"])
        if numbers:
            if "O" in d:
                m["O"] = d["O"]
            self.blanks_at(m, False)
            self.after_number(m, d, digits)
        self.items(n, d, numbers, scales, ordinals, digits, tag="item", dn=m)
        if blank:
            for k in ("B", "W"):
                self.edge(n[k], d["B"], "ws", self.blanks, "ws", tag="item")
        d = dict(d)
        if numbers:
            for k in ("N", "NB", "NC", "NCB"):
                d[k + "2"] = m[k]
        return n, d

    def places(self, numbers=True):
        n = {k: self.node() for k in (["B", "W"] + (["N", "NB", "NC", "NCB"] if numbers else []))}
        if numbers and self.lx.ordinals:
            n["O"] = self.node()
        return n

    def blanks_at(self, n, free=True):
        if free:
            self.spaces(n["B"], n["B"])
            self.spaces(n["W"], n["B"])
        if "N" in n:
            self.spaces(n["N"], n["NB"])
            self.spaces(n["NB"], n["NB"])
            self.spaces(n["NC"], n["NCB"])
            self.spaces(n["NCB"], n["NCB"])
            if free and "O" in n:
                self.spaces(n["O"], n["B"])

    def items(self, n, d, numbers=True, scales=None, ordinals=True, digits=True, tag=None, dn=None):
        """The edges of one item from the places n to the places d.

        B after a blank or sign, W after a word, N after a number, NB after a number and a blank, NC after a connecting
        word that trails a number, NCB after that and a blank, O after an ordinal.
        """
        hi = self.hi

        word, sign = self.putters(n, d, digits, tag)
        word("B", "W")
        sign("B", "W" if hi else "B")
        self.conn(n["B"], d["W"], True, tag)
        if not hi:
            self.conn(n["B"], d["B"], False, tag)
            sign("W", "B")
            self.conn(n["W"], d["B"], False, tag)
        if not numbers:
            return
        if scales is None or scales or not self.short:
            self.cardinal(n["B"], (dn or d)["N"], scales, few=True, tag=tag or "ctx", bare=False)
        else:
            self.single(n["B"], (dn or d)["N"])
        self.after_number(n, d, digits, tag)
        if ordinals and self.lx.ordinals:
            if self.short:
                self.single(n["B"], d["O"], ordinal=True)
            else:
                self.cardinal(n["B"], d["O"], scales, few=True, ordinal=True, tag=tag or "ctx", bare=False)
            if not hi:
                sign("O", "B")

    def single(self, a, b, ordinal=False):
        """One number word as a number."""
        ws = [(self.lx.ordinals[w] if ordinal else w, v) for w, v in self.lx.all.items()
              if w not in self.lx.scale and not any(c in w for c in APOS) and (self.allowed is None or self.allowed(w))]
        self.edge(a, b, "number", [w for w, _ in ws], "num", [v for _, v in ws], (("G", (("v", 1),)),), newseg=True)
        self.phrases.append((a, b))

    def putters(self, n, d, digits, tag):
        def word(x, y):
            self.other(n[x], d[y], tag)
            if digits:
                self.digits(n[x], d[y], tag)

        def sign(x, y):
            self.punct(n[x], d[y], tag)
            self.sep(n[x], d[y], tag)
        return word, sign

    def after_number(self, n, d, digits=True, tag=None):
        word, sign = self.putters(n, d, digits, tag)
        word("NB", "W")
        word("NCB", "W")
        for x in ("NB",):
            self.conn(n[x], (d if tag or n is d else n)["NC"], True, tag)
        if self.hi:
            sign("NB", "W")
            sign("NCB", "W")
            return
        for x in ("N", "NB", "NC", "NCB"):
            sign(x, "B")
            if x[:2] != "NC":
                self.conn(n[x], (d if tag or n is d else n)["NCB"], False, tag)

    def ends(self, n):
        return [n[k] for k in ("B", "W", "N", "NB", "NC", "NCB", "O", "N2", "NB2", "NC2", "NCB2") if k in n]

    def finish(self, a, b):
        gb = GB()
        gb.g = self.g
        gb.eps = self.eps_
        return gb.done(a, b)
