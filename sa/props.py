"""The obligations of each property."""
from .vals import *
from .lang import *
from .check import Spec, run, num_spec, none_spec, AnchorLost
from .run import Job
from . import rules

CORE = ["the models of built-in functions, str/list/dict/re methods and unicodedata in sa/models.py",
        "the reference lexicons in sa/lexicon (role and value of each word)",
        "CPython 3.12's own unicodedata/re tables, used for constants"]

META = {}
MAKE = {}


def prop(pid, explanation, rule, assumptions=CORE, level="other"):
    META[pid] = {"explanation": explanation, "rule": rule, "assumptions": list(assumptions), "level": level}

    def deco(f):
        MAKE[pid] = f
        return f
    return deco


def obligations(pid, repo, tier, seed):
    if pid not in MAKE:
        raise SystemExit("no check for %s" % pid)
    return MAKE[pid](repo, tier, seed), META[pid]


def spec_job(make, name, repo, seed, cost=10, budget=420):
    def thunk(b):
        sps = make()
        sps = sps if isinstance(sps, list) else [sps]
        best = None
        for sp in sps:
            r = run(sp, repo, seed, b / len(sps))
            r.name = name
            if best is None:
                best = r
                continue
            r.exits += best.exits
            r.alarms += best.alarms
            r.wall += best.wall
            if best.status != "proved" and (r.status == "proved" or best.status == "violation"):
                r.status, r.why, r.witness = best.status, best.why, best.witness
            if best.stats and r.stats:
                for k, v in best.stats.items():
                    r.stats[k] = sorted(set(v) | set(r.stats[k])) if k == "functions" else r.stats[k] + v
            best = r
            if r.status == "violation":
                break
        return best
    return Job(name, thunk, cost, budget)


def key_scales(lang, n):
    return lex(lang).scales[-n:] if n else []


def subsets(lang):
    """Scale sets of growing size: the whole grammar, and small ones whose alarms are easier to pin down."""
    sc = lex(lang).scales
    out = [("all", None), ("none", [])]
    for k in (1, 2, 3):
        out.append(("low%d" % k, sc[-k:]))
    return out


def cardinal(lang, scales, fn, variants=v_plain, ordinal=False, few=False, zero=True, args=None, name="",
             exclusive=False):
    def make():
        W = Words(lang, variants)
        if exclusive:
            W.allowed = only_in(lang)
            W.conns = [c for c in W.conns if c[0].isalpha()]
        a, b = W.node(), W.node()
        W.cardinal(a, b, scales, few=few, ordinal=ordinal, zero=zero)
        return num_spec(name, W, W.pieces(a, b), a, b, fn, [K(lang)] if args is None else args)
    return make


FULLCOST = {"en": 20, "es": 95, "hi": 2, "ru": 5, "uk": 70}


@prop("C01", "Abstract interpretation of parse_number on the whole language of well-formed cardinals (a finite automaton "
      "whose edges are the words of the reference lexicon, loops of the analysed code solved as fixpoints with "
      "relational linear invariants over the reference value of the words read so far).",
      "every exit of parse_number returns an integer proved equal to the reference value of the phrase")
def c01(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for tag, sc in subsets(lang):
            nm = "%s.cardinals.%s" % (lang, tag)
            cost = FULLCOST[lang] if tag == "all" else 3
            jobs.append(spec_job(cardinal(lang, sc, "parse_number", name=nm), nm, repo, seed, cost))
    return jobs


@prop("C02", "As C01 for parse_ordinal, on English phrases whose last word is ordinal and on the cardinals of every language.",
      "every exit of parse_ordinal returns an integer proved equal to the reference value of the phrase")
def c02(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for tag, sc in subsets(lang):
            nm = "%s.cardinals.%s" % (lang, tag)
            jobs.append(spec_job(cardinal(lang, sc, "parse_ordinal", name=nm), nm, repo, seed,
                                 FULLCOST[lang] if tag == "all" else 3))
    for tag, sc in subsets("en"):
        nm = "en.ordinals.%s" % tag
        jobs.append(spec_job(cardinal("en", sc, "parse_ordinal", ordinal=True, name=nm), nm, repo, seed, 30))
    return jobs


# ------------------------------------------------------------------ tables
@prop("C17", "Comparison of the five supported languages' tables, read from their syntax trees, with the reference lexicon; "
      "and abstract interpretation of parse_number on every listed word alone.",
      "every lexicon word is listed in its role with its value; every listed word has one value, can be a token and is "
      "recognised by parse_number with that value", CORE)
def c17(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        nm = "tables." + lang
        jobs.append(Job(nm, lambda b, lang=lang: rules.rule_lexicon(repo, lang), 1))
        for fn in ("parse_number", "parse_ordinal"):
            nm = "alone.%s.%s" % (lang, fn)

            def make(lang=lang, nm=nm, fn=fn):
                W = Words(lang)
                a, b = W.node(), W.node()
                words = dict(W.lx.all)
                try:
                    info, _, _ = rules.table(repo, lang)
                    for sec in rules.SECTIONS:
                        for w, v in info[sec].items():
                            words.setdefault(w, v)
                except Exception:
                    pass
                vals = list(words.values())
                W.edge(a, b, "any", list(words), "num", vals, (("G", (("v", 1),)),))
                return num_spec(nm, W, W.pieces(a, b), a, b, fn, [K(lang)])
            jobs.append(spec_job(make, nm, repo, seed, 2))
    return jobs


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


@prop("C18", "Every committed locale table, read from its syntax tree, is compared entry by entry with what its "
      "translation sources (raw CLDR spellout rules overridden by the supplementary file) say.",
      "table = entries of the sources, values and flags included", ["the reading of CLDR spellout rules in sa/rules.py:extract"])
def c18(repo, tier, seed):
    jobs = [Job("sources.%d" % i, lambda b, ls=ls: rules.rule_sources(repo, ls), 2)
            for i, ls in enumerate(chunks(rules.locales(repo), 14))]
    jobs.append(Job("sources.locales", lambda b: rules.rule_all_locales(repo), 1))
    return jobs


@prop("C19", "Every committed locale table, read from its syntax tree, is checked section by section.",
      "sections present, words to plain integers of the section's kind; supported languages cover 0-99, 100 and 1000",
      ["the section names read by the loader"])
def c19(repo, tier, seed):
    return [Job("format.%d" % i, lambda b, ls=ls: rules.rule_wellformed(repo, ls), 2)
            for i, ls in enumerate(chunks(rules.locales(repo), 14))]


@prop("C20", "The generator script is interpreted abstractly for every locale after another one, with and without spell-out "
      "rules, the contents of all files unknown and tracked by where they come from and in which order they reach a table.",
      "text files opened as UTF-8; every locale with rules gets its table at number_parser/data/<locale>.py and nothing else is "
      "touched; a table holds entries of its own locale only, raw ones below supplementary ones, every section the package "
      "reads, in sorted order; nothing depends on listing order, set order, locale, environment or time",
      ["models of the library functions the generator uses", "the generator's inputs have the shape of the committed ones"])
def c20(repo, tier, seed):
    from . import gen
    raw, _ = gen.sources(repo)
    return [Job("tables.%02d" % i, lambda b, ls=ls, i=i: gen.check(repo, ls, "tables.%02d" % i), 5)
            for i, ls in enumerate(chunks(raw, 8))]


# ------------------------------------------------------------------ rejection
from .soup import Soup
from .texts import *


def none_soup(lang, repo, fn, shape, name, args=None, **kw):
    """Texts parse_number must not answer; shapes: bad, empty, lead."""
    def make():
        T = Soup(lang, repo, **kw)
        if kw:
            # marks of category Mn are accents to this package: on their own they are blank
            T.punct_words = [p for p in T.punct_words if unicodedata.category(p[0]) != "Mn"]
        hi = T.hi
        B, W, end = T.node(), T.node(), T.node()
        ordi = fn == "parse_ordinal"
        if shape == "empty":
            # blanks, connecting words, hyphens, apostrophes
            ends = T.soup(B, W, numbers=False, other=False, punct=False, digits=False, seps=False)
            if not hi:
                T.edge(B, B, "apos", APOS, "punct", brk=True)
            start = B
        elif shape == "lead":
            # blanks, a connecting word first, then anything
            start = T.node()
            T.edge(start, start, "ws", WS_FEW, "ws")
            if T.conn(start, W, True) is None and T.conn(start, B, False) is None:
                return None
            if not hi:
                T.conn(start, B, False)
            ends = T.soup(B, W, ordinals=ordi)
        else:
            # anything, something that is no part of a number, anything
            start, W0 = T.node(), T.node()
            pre = T.soup(start, W0, ordinals=ordi, other=False, punct=False, digits=False, seps=False)
            T.other(start, W)
            T.edge(start, W, "mixed", ["2nd", "4x", "12a", "x7", "1_0"], "word", brk=True)
            ps = [p for p in T.punct_words if p not in APOS and p not in T.lx.connectors]
            if hi:
                ps = [p for p in ps if p != "-"] + ["-"]
            for x in (start,) if hi else (start, W0):
                T.edge(x, W if hi else B, "punct", ps, "punct", brk=True)
                T.sep(x, W if hi else B)
            ends = T.soup(B, W, ordinals=ordi)
        for x in ends:
            T.eps(x, end)
        sps = []
        for ps in T.finish(start, end):
            sp = none_spec(name, T, ps, fn, [K(lang)] if args is None else args)
            sp.coarse = True
            sps.append(sp)
        return sps
    return make


def near_number(lang, repo, fn, name):
    """A well-formed number with one foreign element before, after or next to it."""
    def make():
        T = Soup(lang, repo)
        a, b, s, e = T.node(), T.node(), T.node(), T.node()
        T.cardinal(a, b, key_scales(lang, 2), few=True)
        w1 = T.node()
        T.other(s, w1)
        T.digits(s, w1)
        T.spaces(w1, a)
        p1 = T.node()
        T.punct(s, p1, words=[p for p in T.punct_words if p not in APOS and p not in T.lx.connectors])
        T.sep(s, p1)
        if T.hi:
            T.spaces(p1, a)
        else:
            T.eps(p1, a)
        # or after
        a2, b2, w2 = T.node(), T.node(), T.node()
        T.cardinal(a2, b2, key_scales(lang, 2), few=True)
        T.spaces(b2, w2)
        T.other(w2, e)
        T.digits(w2, e)
        pw = [p for p in T.punct_words if p not in APOS and p not in T.lx.connectors]
        for x in (w2,) if T.hi else (w2, b2):
            T.punct(x, e, words=pw)
            T.sep(x, e)
        S0, E0 = T.node(), T.node()
        T.eps(S0, s)
        T.eps(S0, a2)
        T.eps(b, E0)
        T.eps(e, E0)
        return [none_spec(name, T, ps, fn, [K(lang)]) for ps in T.finish(S0, E0)]
    return make


def make_jobs(mk, name, repo, seed, cost=5):
    return [spec_job(mk, name, repo, seed, cost, 100)]


@prop("C08", "Abstract interpretation of parse_number and parse_ordinal on automata of all token sequences that are no number: "
      "anything with an ordinary word, punctuation mark or mixed digits; nothing but blanks, connectors and apostrophes; "
      "anything led by a connecting word.", "every exit returns None")
def c08(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            for shape in ("bad", "empty", "lead"):
                if shape == "lead" and not lex(lang).connectors:
                    continue
                nm = "%s.%s.%s" % (lang, fn, shape)
                jobs += make_jobs(none_soup(lang, repo, fn, shape, nm), nm, repo, seed)
            nm = "%s.%s.near" % (lang, fn)
            jobs += make_jobs(near_number(lang, repo, fn, nm), nm, repo, seed)
    return jobs


# ------------------------------------------------------------------ digits
import os
import time
import unicodedata
import sys as _sys
DECIMAL = [c for c in map(chr, range(_sys.maxunicode + 1)) if c.isdecimal()]
NUMERIC = [c for c in map(chr, range(_sys.maxunicode + 1)) if c.isnumeric() and not c.isdecimal()]


def digit_text(lang, fn, name, args):
    """blanks digits blanks: any digits of any script, any blanks."""
    def make():
        W = Words(lang)
        a, b, c, d = (W.node() for _ in range(4))
        W.edge(a, a, "ws", WS, "ws")
        W.edge(a, b, "digit", DECIMAL, "digits", brk=True)
        W.edge(b, b, "digit", DECIMAL, "digits", brk=True)
        W.edge(b, c, "ws", WS, "ws")
        W.edge(c, c, "ws", WS, "ws")
        from .strs import GB
        gb = GB()
        gb.g = W.g
        gb.eps = [(b, d), (c, d)]
        out = []

        def judge(ip, q, v):
            if type(v) is not N:
                return "does not return the integer of the digits"
            ln = q.simp(q.nums[v.id][0])
            if ln is not None and len(ln) == 1 and ln[0][1] == 1 and ln[0][0][0] == "int":
                # the string handed to int() is the run of digits itself
                ps = ln[0][0][1]
                if digits_of(ps, b):
                    return None
            return "the integer returned is not that of the digits"

        def oracle(path):
            val = int(path.text().strip())
            return (lambda x: type(x) is int and x == val), repr(val)
        for ps in gb.done(a, d):
            out.append(Spec(name, W, ps, a, [d], fn, args, judge, oracle))
        return out
    return make


def digits_of(ps, b):
    """Does this piece sequence run over the digits of the input from the first one on, with nothing else between?"""
    first = True
    for p in ps:
        if p[0] != "P":
            return False
        _, g, x, y = p
        live = g.reaches(y) & g.forward(x)
        seen, todo = {(x, first)}, [(x, first)]
        while todo:
            n, f = todo.pop()
            for lab, m in g.out[n]:
                if m not in live:
                    continue
                if len(lab.insts) != 1 or type(lab.val) is not Rel or lab.insts[0][0].kind != "digits":
                    return False
                u = lab.insts[0][0]
                if lab.val.tab != u.words and tuple(lab.val.tab) != tuple(u.words):
                    return False
                if (u.dst == u.src) == f:
                    return False
                if (m, False) not in seen:
                    seen.add((m, False))
                    todo.append((m, False))
        first = False
    return not first


def whole_number(ip, ln):
    """The phrase symbol when ln is int() of a text that is one word of known value."""
    if ln is None or len(ln) != 1 or ln[0][1] != 1 or ln[0][0][0] != "int":
        return None
    ps = ln[0][0][1]
    if len(ps) != 1 or ps[0][0] != "P" or ps[0][2] == ps[0][3]:
        return None
    _, g, x, y = ps[0]
    live = g.reaches(y) & g.forward(x)
    sym = None
    for n in live:
        for lab, m in g.out[n]:
            if m not in live:
                continue
            if n != x or m != y or len(lab.insts) != 1 or type(lab.val) is not Rel:
                return None
            u, mask = lab.insts[0]
            if u.vals is None or not all(lab.val.tab[w].isdecimal() and int(lab.val.tab[w]) == u.vals[w]
                                         for w in bits(mask)):
                return None
            v = ("V", ip.canonpos(u.src), ip.canonpos(u.dst))
            if sym is not None and sym != v:
                return None
            sym = v
    return sym


def digit_samples(seed):
    import random
    rnd = random.Random(seed)
    out = list(DECIMAL)
    zeros = [c for c in DECIMAL if unicodedata.decimal(c) == 0]
    for k in range(300):
        n = rnd.choice((2, 2, 3, 4, 7, 12, 19, 25, 40))
        z = ord(rnd.choice(zeros)) if k % 3 else ord("0")
        out.append("".join(chr(z + rnd.randrange(10)) for _ in range(n)))
    out += ["0" * k for k in (2, 5)] + ["000123", "1" + "0" * 30, "".join(rnd.choice(DECIMAL) for _ in range(9))]
    return list(dict.fromkeys(out))


def digit_words(lang, fn, name, args, seed):
    def make():
        W = Words(lang)
        a, s, b, d = (W.node() for _ in range(4))
        ws = digit_samples(seed)
        W.edge(a, a, "ws", WS, "ws")
        W.edge(a, b, "digits", ws, "num", [int(x) for x in ws], (("G", (("v", 1),)),))
        W.edge(b, b, "ws", WS, "ws")
        sp = num_spec(name, W, W.pieces(a, b), a, b, fn, args)
        plain = sp.judge

        def judge(ip, q, v):
            if type(v) is N:
                ln = q.simp(q.nums[v.id][0])
                if whole_number(ip, ln) == ("V", W.canonpos(a), W.canonpos(b)):
                    return None
            return plain(ip, q, v)
        sp.judge = judge
        return sp
    return make


def numeric_soup(lang, fn, name, args):
    """blanks, then numeric characters at least one of which is no decimal digit, then blanks."""
    def make():
        W = Words(lang)
        a, p, b, c, d = (W.node() for _ in range(5))
        chars = [x for x in NUMERIC if x.isalnum() or x.isalpha()] or NUMERIC
        W.edge(a, a, "ws", WS_FEW, "ws")
        W.edge(a, b, "numeric", NUMERIC, "other", brk=True)
        W.edge(a, b, "mixed", ["1" + x for x in NUMERIC[:400]] + [x + "2" for x in NUMERIC[:400]] +
               [x + x for x in NUMERIC[:400]], "other", brk=True)
        W.edge(b, b, "ws", WS_FEW, "ws")
        return none_spec(name, W, W.pieces(a, b), fn, args)
    return make


@prop("C10", "Abstract interpretation of parse_number and parse_ordinal on blanks* digits+ blanks*, over every decimal digit "
      "character and every blank character of Unicode, and on texts with numeric characters that are no decimal digits.",
      "the result is int() of the whole run of digits; numeric non-decimal text gives None")
def c10(repo, tier, seed):
    jobs = []
    for lang in LANGS + (None,):
        for fn in ("parse_number", "parse_ordinal"):
            args = [K(lang)] if lang else []
            if fn == "parse_number":
                nm = "%s.%s.runs" % (lang, fn)
                jobs += make_jobs(digit_text(lang or "en", fn, nm, args), nm, repo, seed)
            nm = "%s.%s.words" % (lang, fn)
            jobs += make_jobs(digit_words(lang or "en", fn, nm, args, seed), nm, repo, seed)
            nm = "%s.%s.numeric" % (lang, fn)
            jobs += make_jobs(numeric_soup(lang or "en", fn, nm, args), nm, repo, seed)
    return jobs


# ------------------------------------------------------------------ spelling variants
def single_words(lang, variants, fn, name, ordinal=False, args=None):
    def make():
        W = Words(lang, variants)
        a, b = W.node(), W.node()
        lx = W.lx
        words, vals = [], []
        for w, v in lx.all.items():
            if ordinal:
                w = lx.ordinals.get(w)
                if w is None:
                    continue
            for x in variants(w):
                words.append(x)
                vals.append(v)
        W.edge(a, b, "any", words, "num", vals, (("G", (("v", 1),)),))
        return num_spec(name, W, W.pieces(a, b), a, b, fn, [K(lang)] if args is None else args)
    return make


def few_words(lang, n=7):
    ws = [w for w in lex(lang).all if not any(c in w for c in APOS)]
    return set(ws[::max(1, len(ws) // n)])


def v_marks(lang):
    """A few words with each combining mark of the block, with mixed case, and with several soft hyphens."""
    chosen = few_words(lang)
    if lang == "en":
        chosen |= {lex(lang).ordinals[w] for w in chosen if w in lex(lang).ordinals}

    def f(w):
        if w not in chosen:
            return [w]
        i = next((i for i, c in enumerate(w) if c.lower() in "aeiouyаеиоуыюяіїє"), 0)
        out = []
        for m in range(0x300, 0x370):
            x = w[:i + 1] + chr(m) + w[i + 1:]
            out += list(dict.fromkeys([x, unicodedata.normalize("NFC", x), unicodedata.normalize("NFC", w[:i + 1].upper() + chr(m) + w[i + 1:].upper())]))
        out.append("".join(c.upper() if k % 2 else c for k, c in enumerate(w)))
        out.append("".join(c.upper() if k % 2 == 0 else c for k, c in enumerate(w)))
        out.append("\xad".join(w))
        out.append("\xad\xad" + w + "\xad\xad")
        out.append(w[:i + 1] + "\u0301\u0327" + w[i + 1:])
        out.append(w[:i + 1] + "\xad\u0301" + w[i + 1:])
        return out
    return f



@prop("C12", "Abstract interpretation of parse_number, parse_ordinal and parse on number words in every letter case, with and "
      "without accents, composed and decomposed, with soft hyphens: alone (every word, every variant) and in well-formed numbers.",
      "every exit gives the value of the plain spelling")
def c12(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            nm = "%s.%s.alone" % (lang, fn)
            jobs += make_jobs(single_words(lang, v_all, fn, nm), nm, repo, seed, 5)
            nm = "%s.%s.marks" % (lang, fn)
            jobs += make_jobs(single_words(lang, v_marks(lang), fn, nm), nm, repo, seed, 5)
            if lang == "en" and fn == "parse_ordinal":
                nm = "en.parse_ordinal.ordinals"
                jobs += make_jobs(single_words(lang, v_all, fn, nm, True), nm, repo, seed, 5)
                nm = "en.parse_ordinal.ordinals.marks"
                jobs += make_jobs(single_words(lang, v_marks(lang), fn, nm, True), nm, repo, seed, 5)
            for tag, sc in (("none", []), ("low2", key_scales(lang, 2)), ("low3", key_scales(lang, 3))):
                if tag == "low3" and tier == "quick" and fn == "parse_ordinal":
                    continue
                nm = "%s.%s.%s" % (lang, fn, tag)
                jobs.append(spec_job(cardinal(lang, sc, fn, v_c12, name=nm, few=True), nm, repo, seed, 9, 300))
    return jobs + parse_jobs(repo, seed, tier, const(only_numbers), ["spelled", "spelled.text", "spelled.ord", "marks", "marks.ord"])


# ------------------------------------------------------------------ whitespace
def padded(lang, scales, fn, name, ordinal=False):
    """Any whitespace at both ends and between the words of a number."""
    def make():
        W = Words(lang)
        s, a, b, e = (W.node() for _ in range(4))
        W.cardinal(a, b, scales, ordinal=ordinal)
        from .strs import GB
        W.edge(s, s, "ws", WS, "ws")
        W.edge(e, e, "ws", WS, "ws")
        m = W.node()
        gb = GB()
        gb.g = W.g
        gb.eps = [(s, a), (b, e)]
        out = []
        for ps in gb.done(s, e):
            sp = num_spec(name, W, ps, a, b, fn, [K(lang)])
            out.append(sp)
        return out
    return make


@prop("C22", "Abstract interpretation of parse_number and parse_ordinal on well-formed numbers with every kind and amount of "
      "Unicode whitespace around and between the words, and on rejected texts with whitespace anywhere.",
      "the value does not depend on the whitespace; rejected texts stay rejected")
def c22(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            for tag, sc in (("low3", key_scales(lang, 3)), ("none", [])):
                nm = "%s.%s.padded.%s" % (lang, fn, tag)
                jobs.append(spec_job(padded(lang, sc, fn, nm), nm, repo, seed, 8, 300))
            for shape in ("empty", "lead"):
                if shape == "lead" and not lex(lang).connectors:
                    continue
                nm = "%s.%s.%s" % (lang, fn, shape)
                jobs += make_jobs(none_soup(lang, repo, fn, shape, nm), nm, repo, seed)
            nm = "%s.%s.digits" % (lang, fn)
            jobs += make_jobs(digit_words(lang, fn, nm, [K(lang)], seed), nm, repo, seed)
    nm = "en.parse_ordinal.ordinals"
    jobs.append(spec_job(padded("en", key_scales("en", 2), "parse_ordinal", nm, True), nm, repo, seed, 8, 300))
    return jobs


# ------------------------------------------------------------------ words that do not combine
def bad_pairs(W, a, b, tag=None, newseg=True, many=False):
    """Two numbers that cannot be one, from a to b; `a` may also be the end of a scale prefix."""
    lx = W.lx
    add = (("G", (("G", 1), ("v", 1))),)
    kw = {"tag": tag}

    def pair(xs, ys):
        x = W.node()
        y = W.node()
        for role, lo, hi, act in xs:
            W.num(a, x, role, act, lo=lo, hi=hi, **kw)
        W.same(x, y)
        W.gap(x, y, True)
        for role, lo, hi in ys:
            W.num(y, b, role, add, lo=lo, hi=hi, newseg=newseg, **kw)
        W.phrases += [(a, x), (y, b)]
        if many and W.conns:
            # two connecting words
            p = [W.node() for _ in range(5)]
            W.spaces(x, p[0])
            W.conn(p[0], p[1], True)
            W.spaces(p[1], p[2])
            W.conn(p[2], p[3], True)
            for q, r in ((x, p[1]), (p[0], p[1]), (p[1], p[3]), (p[2], p[3])):
                W.conn(q, r, False)
            W.spaces(p[3], p[4])
            for role, lo, hi in ys:
                W.num(p[4], b, role, add, lo=lo, hi=hi, newseg=newseg, **kw)
            W.phrases.append((p[4], b))
    U, D, T, H = (("unit", None, None, add), ("direct", None, None, add), ("tens", None, None, add),
                  ("hundreds", None, None, add))
    pair([U, D], [("unit", None, None), ("direct", None, None), ("tens", None, None)])
    pair([T], [("direct", None, None), ("tens", None, None)])
    if lx.hundreds:
        pair([U, D, T, H], [("hundreds", None, None)])


def uncombinable(lang, fn, name, prefix):
    def make():
        W = Words(lang)
        s, a, b = W.node(), W.node(), W.node()
        bad_pairs(W, a, b)
        big = [v for v in lex(lang).scales if v >= (10 ** 6 if lex(lang).long else 1000)]
        if prefix:
            # a shorter number in front: "<1..99> <scale>"
            x, y = W.node(), W.node()
            add = (("G", (("G", 1), ("v", 1))),)
            W.num(s, x, "unit", add, lo=1)
            W.num(s, x, "direct", add)
            W.same(x, y)
            W.gap(x, y, True)
            z = W.node()
            for v in big:
                W.num(y, z, "scale", (("T", (("G", v),)), ("G", ())), val=v)
            W.same(z, a)
            W.gap(z, a, True)
            start = s
        else:
            start = a
        return none_spec(name, W, W.pieces(start, b), fn, [K(lang)])
    return make


def same_scale(lang, fn, name):
    """A scale word that closes a group, twice in a row; or a group larger than the scale word after it."""
    def make():
        W = Words(lang)
        a, b = W.node(), W.node()
        lx = lex(lang)
        big = [v for v in lx.scales if v >= (10 ** 6 if lx.long else 1000)]
        add = (("G", (("G", 1), ("v", 1))),)
        for v in big:
            u, w, x, y = W.node(), W.node(), W.node(), W.node()
            W.num(a, u, "unit", add, lo=1)
            W.num(a, u, "direct", add)
            W.gap(u, w, True)
            W.num(w, x, "scale", add, val=v)
            W.num(a, x, "scale", add, val=v)
            W.gap(x, y, True)
            W.num(y, b, "scale", add, val=v, newseg=True)
        if 100 in lx.scales:
            # "two hundred hundred", "hundred five hundred"
            u, w, x, y = W.node(), W.node(), W.node(), W.node()
            W.num(a, u, "unit", add, lo=2)
            W.gap(u, w, True)
            W.num(w, x, "scale", add, val=100)
            p, q = W.node(), W.node()
            W.num(a, p, "scale", add, val=100)
            W.gap(p, q, True)
            W.num(q, x, "unit", add, lo=1)
            W.num(q, x, "direct", add)
            W.num(q, x, "tens", add)
            W.gap(x, y, True)
            W.num(y, b, "scale", add, val=100, newseg=True)
        return none_spec(name, W, W.pieces(a, b), fn, [K(lang)])
    return make


@prop("C07", "Abstract interpretation of parse_number (None) and parse (two numbers written) on every pair of number words "
      "that cannot be one number, alone, after a longer number, and inside texts.",
      "parse_number: every exit returns None; parse: the output is the text with each of the two numbers in its place")
def c07(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            for pre in (0, 1):
                nm = "%s.%s.pairs%d" % (lang, fn, pre)
                jobs += make_jobs(uncombinable(lang, fn, nm, pre), nm, repo, seed)
            nm = "%s.%s.scales" % (lang, fn)
            jobs += make_jobs(same_scale(lang, fn, nm), nm, repo, seed)
    return jobs + parse_jobs(repo, seed, tier, const(only_numbers), ["pairs"])


# ------------------------------------------------------------------ fractions
FSEPS = ["divided by", "over", "by", "/"]


def frac_words(lang):
    """Words for fraction texts that contain no separator inside."""
    return [w for w in OTHER[lang] if not any(s in w for s in FSEPS)]


def frac_text(lang, fn_scales, name, kinds, args=None, exclusive=False):
    """A sep B with A and B numbers; sep with blanks around."""
    def make():
        W = Words(lang)
        if exclusive:
            W.allowed = only_in(lang)
            W.conns = [c for c in W.conns if c[0].isalpha()]
        sps = []
        a, b, c, d, x, y = (W.node() for _ in range(6))
        ds = ["0", "7", "42", "007", "1000"]

        def side(p, q, k):
            if k == "w":
                W.cardinal(p, q, fn_scales, few=True)
            else:
                W.edge(p, q, "digits", ds, "num", [int(z) for z in ds], (("G", (("G", 1), ("v", 1))),))
        side(a, b, kinds[0])
        side(c, d, kinds[1])
        if kinds[2] == "/":
            W.edge(b, c, "fsep", ["/"], "fsep", brk=True)
        else:
            m, cur = W.node(), W.node()
            W.edge(b, m, "ws", WS_FEW, "ws")
            W.edge(m, cur, "fsep", [kinds[2]], "fsep", brk=True)
            W.edge(cur, c, "ws", WS_FEW, "ws")
        V1 = ("V", W.canonpos(a), W.canonpos(b))
        V2 = ("V", W.canonpos(c), W.canonpos(d))

        def judge(ip, q, v):
            return frac_is(ip, q, v, V1, V2)

        def oracle(path):
            ns = [i[1] for i in path.items() if i[0] == "num"]
            want = "%d/%d" % (ns[0], ns[1])
            return (lambda r: r == want), repr(want)
        sp = Spec(name, W, W.pieces(a, d), a, [d], "parse_fraction", [K(lang)] if args is None else args, judge, oracle)
        sp.unique = frozenset([V1, V2])
        return sp
    return make


def frac_is(ip, q, v, V1, V2):
    """Is v the text 'V1/V2'?"""
    from .strs import spieces
    ps = spieces(q, v)
    if ps is None:
        return "returns no text"
    toks = []
    for p in ps:
        if p[0] != "E":
            return "returns a text of unknown length"
        x = p[1]
        if type(x) is K and isinstance(x.v, str):
            toks.extend(("c", ch) for ch in x.v)
        elif type(x) is Rel:
            u, m = q.ins[x.inst]
            vs = {str(x.tab[w]) for w in bits(m)}
            # the text of one side: as a number of the word's value
            if u.vals is not None and all(str(x.tab[w]) == str(u.vals[w]) for w in bits(m)):
                toks.append(("n", ("V", ip.canonpos(u.src), ip.canonpos(u.dst))))
            elif len(vs) == 1:
                toks.extend(("c", ch) for ch in vs.pop())
            else:
                return "returns a text tied to one word"
        elif type(x) is IS:
            ln = q.simp(q.nums[x.id][0])
            if ln is not None and len(ln) == 1 and ln[0][1] == 1 and ln[0][0][0] == "V":
                toks.append(("n", ln[0][0]))
            elif whole_number(ip, ln):
                toks.append(("n", whole_number(ip, ln)))
            elif ln is not None and lin_is_const(ln):
                toks.extend(("c", ch) for ch in str(ln[0][1] if ln else 0))
            else:
                return "one side is not the value of its phrase (%s)" % (ln,)
        else:
            return "returns an unknown text"
    if toks.count(("c", "/")) != 1:
        return "returns a text without exactly one '/'"
    i = toks.index(("c", "/"))

    def side(ts, V):
        if ts == [("n", V)]:
            return True
        if ts and all(k == "c" and ch.isdigit() for k, ch in ts):
            c = int("".join(ch for _, ch in ts))
            return q.rng.get(V) == (c, c) and str(c) == "".join(ch for _, ch in ts)
        return False
    if not side(toks[:i], V1):
        return "the numerator is not the value of the first number"
    if not side(toks[i + 1:], V2):
        return "the denominator is not the value of the second number"
    return None


def frac_none(lang, repo, name, shape, **kw):
    """Texts that are no fraction."""
    def make():
        if shape == "nosep":
            return one("")
        if shape == "good-two":
            # (in Hindi a kept "divided by" is cut at its blank: not expressible as one word)
            return [x for s1 in FSEPS for s2 in FSEPS if not (lang == "hi" and "divided by" in (s1, s2))
                    for x in one(s1, s2)]
        return [x for s1 in FSEPS for x in one(s1)]

    def one(s1, s2=None):
        T = Soup(lang, repo, **kw)
        T.punct_words = [p for p in T.punct_words if unicodedata.category(p[0]) != "Mn"]
        if not kw:
            T.other_words = frac_words(lang)
        T.punct_words = [p for p in T.punct_words if p != "/"]
        B, W, end = T.node(), T.node(), T.node()
        hi = T.hi

        def number(x, y):
            T.cardinal(x, y, [], few=True)
        if shape == "nosep":
            start = B
            ends = T.soup(B, W, ordinals=False, digits=True)
        else:
            start, p, q = T.node(), T.node(), T.node()

            def sep(x, y, s=s1):
                T.edge(x, y, "fsep", [s], "fsep", brk=True)

            def junk(x, y):
                """something that is no number: an ordinary word, or a number and an ordinary word"""
                m, n, o = T.node(), T.node(), T.node()
                T.other(x, y)
                T.edge(x, y, "punct", ["!", "?", "(", "%"], "punct", brk=True)
                number(x, m)
                T.spaces(m, n)
                T.other(n, y)
                T.edge(n, y, "punct", ["!", "?", "(", "%"], "punct", brk=True)

            def good(x, y):
                number(x, y)
            first, last = shape.split("-")
            u, v = T.node(), T.node()
            if first == "empty":
                T.edge(start, start, "ws", WS_FEW, "ws")
                T.eps(start, p)
            else:
                (junk if first == "junk" else good)(start, u)
                T.spaces(u, p)
            sep(p, q)
            if last == "empty":
                T.edge(q, q, "ws", WS_FEW, "ws")
                T.eps(q, end)
            elif last == "two":
                # a second separator
                e1, e2, e3 = T.node(), T.node(), T.node()
                T.spaces(q, v)
                good(v, e1)
                T.spaces(e1, e2)
                sep(e2, e3, s2)
                e4 = T.node()
                T.spaces(e3, e4)
                good(e4, end)
            else:
                T.spaces(q, v)
                (junk if last == "junk" else good)(v, end)
            ends = []
        for x in ends:
            T.eps(x, end)
        sps = []
        for ps in T.finish(start, end):
            sp = none_spec(name, T, ps, "parse_fraction", [K(lang)])
            sp.coarse = shape == "nosep"
            sps.append(sp)
        return sps
    return make


@prop("C11", "Abstract interpretation of parse_fraction on 'A sep B' for every separator, A and B any well-formed number or "
      "digits, and on texts without separator, with an empty side, a side that is no number, or two separators.",
      "the result is exactly 'value(A)/value(B)', or None for the texts that are no fraction")
def c11(repo, tier, seed):
    jobs = []
    for lang in LANGS:
        for s in FSEPS:
            for k in ("ww", "wd", "dw", "dd"):
                sc = key_scales(lang, 2) if k == "ww" and s == "over" else key_scales(lang, 1)
                nm = "%s.%s.%s" % (lang, s, k)
                jobs.append(spec_job(frac_text(lang, sc, nm, (k[0], k[1], s)), nm, repo, seed, 6, 200))
        for shape in ("nosep", "empty-good", "good-empty", "empty-empty", "junk-good", "good-junk", "good-two"):
            nm = "%s.none.%s" % (lang, shape)
            jobs += make_jobs(frac_none(lang, repo, nm, shape), nm, repo, seed)
    return jobs


# ------------------------------------------------------------------ parse
from .align import Grammar, aligned, expected, text_oracle
import re


def wanted(path):
    """(numbers, other items, all) parse must write for a concrete path."""
    its = path.items()
    nums = [x for k, x, _ in its if k == "num"]
    rest = [x.replace("\xad", "") for k, x, _ in its if k != "num"]
    return nums, rest, its


def only_numbers(path):
    """Digit strings written (in a text whose own digits are known)."""
    nums, rest, its = wanted(path)
    want = []
    for k, x, _ in its:
        if k == "num":
            want.append(str(x))
        else:
            want += re.findall(r"\d+", x)
    show = expected(path)[1]

    def pred(y):
        return isinstance(y, str) and re.findall(r"\d+", y) == want
    return pred, "%r (numbers %s)" % (show, want)


def only_rest(path):
    """Everything but the numbers: same items, unchanged, in order, once."""
    nums, rest, its = wanted(path)
    parts = []
    for k, x, _ in its:
        parts.append(r"\d+" if k == "num" else re.escape(x.replace("\xad", "")))
    # number phrases may be written as any digits, or even any text without the kept items: only those are compared
    want = "".join("".join(r.split()) for r in rest if not r.isdecimal())
    show = expected(path)[1]

    def pred(y):
        if not isinstance(y, str):
            return False
        flat = "".join(c for c in y if not c.isspace())
        if any(re.search(r"\d", r) for r in rest):
            # digits of kept items must be found in order among the digits written
            i = 0
            for r in rest:
                r = "".join(r.split())
                j = flat.find(r, i)
                if j < 0:
                    return False
                i = j + len(r)
            return True
        return re.sub(r"\d+", "", flat) == want
    return pred, repr(show)


def no_number_left(lang):
    lx = lex(lang)
    known = {strip_marks(w.lower()) for w in list(lx.all) + list(lx.ordinals.values())}

    def oracle(path):
        show = expected(path)[1]
        rest = [strip_marks(x.lower()) for x in wanted(path)[1]]

        def pred(y):
            if not isinstance(y, str):
                return False
            toks = y.split() if lang == "hi" else re.split(r"[^\w\u0300-\u036f]", y)
            return not any(strip_marks(t.lower()) in known and strip_marks(t.lower()) not in rest for t in toks)
        return pred, "%r (no number word)" % show
    return oracle


def parse_ctx(lang, repo, name, oracle, scales=(), ordinals=False, numbers=True, digits=True, args=None, verbatim=False,
              track=False, **kw):
    """Free text with any number of number phrases."""
    def make():
        T = Text(lang, repo, **kw)
        if verbatim:
            T.blanks = WS
        kw2 = {"scales": list(scales), "ordinals": ordinals, "numbers": numbers, "digits": digits}
        if track:
            T.short = True
            n, m = T.tracked(blank=verbatim, **kw2)
        else:
            n = m = T.context(**kw2)
        end = T.node()
        for x in T.ends(m):
            T.eps(x, end)
        G = Grammar(T, [end], n["B"], verbatim=verbatim)
        sps = []
        for ps in T.finish(n["B"], end):
            if not ps:
                continue
            sps.append(Spec(name, T, ps, n["B"], [end], "parse", [K(lang)] if args is None else args,
                            lambda ip, q, v: aligned(ip, q, v, G), oracle))
            if track:
                sps[-1].fine = "phase"
        return sps
    return make


def parse_marked(lang, repo, name, oracle, scales, ordinal=False, variants=v_plain, pairs=False, args=None, bare=True, **kw):
    """One number phrase between single elements: [element] phrase [element]."""
    def make():
        T = Text(lang, repo, variants, **kw)
        hi = T.hi
        s, a, b, e = (T.node() for _ in range(4))
        if pairs:
            bad_pairs(T, a, b, many=True)
        else:
            T.cardinal(a, b, scales, few=True, ordinal=ordinal, bare=bare, zero=bare)
        # before
        w = T.node()
        T.other(s, w)
        T.digits(s, w)
        T.conn(s, w, True)
        if not hi:
            T.sep(s, a)
            T.punct(s, a)
            T.conn(s, a, False)
        else:
            T.sep(s, w)
            T.punct(s, w)
        T.spaces(w, a)
        T.spaces(s, a)
        T.eps(s, a)
        # after
        z = T.node()
        T.spaces(b, z)
        T.other(z, e)
        T.digits(z, e)
        after = [b, z]
        if not (ordinal and lang == "en") and not pairs:
            # one connecting word; two, each with edges of its own
            c, y, c2, y2, c3 = (T.node() for _ in range(5))
            T.conn(z, c, True)
            for q in (b, z):
                T.conn(q, c, False)
            T.spaces(c, y)
            T.other(y, e)
            T.digits(y, e)
            T.eps(c, e)
            T.eps(y, e)
            after += [c, y]
            if not scales:
                T.conn(z, c2, True)
                T.spaces(c2, y2)
                T.conn(y2, c3, True)
                for q, r in ((b, c2), (z, c2), (c2, c3), (y2, c3)):
                    T.conn(q, r, False)
                T.spaces(c3, y)
                T.eps(c3, e)
                if not hi:
                    after.append(c3)
        for x in after[1::2] if hi else after:
            T.sep(x, e)
            T.punct(x, e)
        T.eps(b, e)
        T.eps(z, e)
        G = Grammar(T, [e], s)
        sps = []
        for ps in T.finish(s, e):
            if ps:
                sps.append(Spec(name, T, ps, s, [e], "parse", [K(lang)] if args is None else args,
                                lambda ip, q, v: aligned(ip, q, v, G), oracle))
                sps[-1].fine = True
                if not pairs:
                    sps[-1].unique = frozenset([("V", T.canonpos(a), T.canonpos(b))])
        return sps
    return make


def alone_in_text(lang, repo, name, oracle, variants=v_plain, ordinal=False, args=None):
    """Every number word as the whole text."""
    def make():
        T = Text(lang, repo, variants)
        lx = T.lx
        words, vals = [], []
        for w, v in lx.all.items():
            w = lx.ordinals.get(w) if ordinal else w
            if w is None or any(c in w for c in APOS):
                continue
            for x in variants(w):
                words.append(x)
                vals.append(v)
        a, b = T.node(), T.node()
        T.edge(a, b, "any", words, "num", vals, (("G", (("v", 1),)),))
        T.phrases.append((a, b))
        G = Grammar(T, [b], a)
        sp = Spec(name, T, T.pieces(a, b), a, [b], "parse", [K(lang)] if args is None else args,
                  lambda ip, q, v: aligned(ip, q, v, G), oracle)
        sp.unique = frozenset([("V", a, b)])
        return sp
    return make


def phrase_text(lang, repo, name, oracle, scales, ordinal=False, args=None):
    """One number phrase as the whole text."""
    def make():
        T = Text(lang, repo)
        a, b = T.node(), T.node()
        T.cardinal(a, b, scales, few=True, ordinal=ordinal)
        G = Grammar(T, [b], a)
        sp = Spec(name, T, T.pieces(a, b), a, [b], "parse", [K(lang)] if args is None else args,
                  lambda ip, q, v: aligned(ip, q, v, G), oracle)
        sp.unique = frozenset([("V", T.canonpos(a), T.canonpos(b))])
        return sp
    return make


def only_spacing(path):
    """The right numbers, with the separators after them spaced as in the text."""
    nums, rest, its = wanted(path)
    rx, prev = "", None
    for k, x, ws in its:
        if k == "num":
            rx += r"\D*?(?<!\d)%d(?!\d)" % x
        elif x.isdecimal():
            rx += r"\D*?" + re.escape(x)
        elif k == "sep" and prev == "num":
            rx += (r"\s+" if ws else "") + re.escape(x)
        prev = k
    c = re.compile(rx + r"\D*\Z")
    return (lambda y: isinstance(y, str) and c.match(y) is not None), repr(expected(path)[1])


def same_text(path):
    want = path.text().replace("\xad", "").strip()
    return (lambda y: y == want), repr(want)


PCOST = {"en": 35, "es": 50, "hi": 3, "ru": 28, "uk": 20}


def parse_jobs(repo, seed, tier, oracle, tags, langs=LANGS):
    """Obligations on parse; `tags` chooses them.  All prove the same equality of texts; they differ in which
    disagreement counts as a violation of the property at hand."""
    jobs = []
    for lang in langs:
        o = oracle(lang)
        c = PCOST[lang]
        hi = lang == "hi"

        def add(tag, mk, cost, budget=300):
            nm = "%s.%s" % (lang, tag)
            if tag in tags:
                jobs.append(spec_job(mk(nm), nm, repo, seed, cost, budget))
        add("ctx", lambda nm: parse_ctx(lang, repo, nm, o), c)
        add("track", lambda nm: parse_ctx(lang, repo, nm, o, track=True), 2 * c)
        if lang == "en":
            add("track.ord", lambda nm: parse_ctx(lang, repo, nm, o, track=True, ordinals=True), 4 * c)
        add("track.plain", lambda nm: parse_ctx(lang, repo, nm, o, track=True, numbers=False), 5)
        if not hi:
            add("ctx.thousand", lambda nm: parse_ctx(lang, repo, nm, o, scales=[1000]), 2.5 * c)
        if lang == "en":
            add("ctx.hundred", lambda nm: parse_ctx(lang, repo, nm, o, scales=[100]), 2.5 * c)
            add("ctx.ord", lambda nm: parse_ctx(lang, repo, nm, o, ordinals=True), 2.2 * c)
            add("marked.ord", lambda nm: parse_marked(lang, repo, nm, o, key_scales(lang, 1), ordinal=True, bare=False), 4)
            add("alone.ord", lambda nm: alone_in_text(lang, repo, nm, o, ordinal=True), 2)
            add("phrase.ord", lambda nm: phrase_text(lang, repo, nm, o, key_scales(lang, 2), ordinal=True), 30)
        add("ctx2", lambda nm: parse_ctx(lang, repo, nm, o, scales=key_scales(lang, 2)), 8 * c, 1500)
        add("marked.none", lambda nm: parse_marked(lang, repo, nm, o, [], bare=False), 3)
        add("marked.low1", lambda nm: parse_marked(lang, repo, nm, o, key_scales(lang, 1), bare=False), c)
        add("marked.low3", lambda nm: parse_marked(lang, repo, nm, o, key_scales(lang, 3), bare=False), 12 * c, 1500)
        add("phrase.low1", lambda nm: phrase_text(lang, repo, nm, o, key_scales(lang, 1)), c / 5)
        add("phrase.low3", lambda nm: phrase_text(lang, repo, nm, o, key_scales(lang, 3)), 1.5 * c)
        add("phrase.all", lambda nm: phrase_text(lang, repo, nm, o, None), 15 * c, 1500)
        add("pairs", lambda nm: parse_marked(lang, repo, nm, o, [], pairs=True), 5)
        add("alone", lambda nm: alone_in_text(lang, repo, nm, o), 2)
        add("spelled", lambda nm: alone_in_text(lang, repo, nm, o, variants=v_all), 4)
        add("marks", lambda nm: alone_in_text(lang, repo, nm, o, variants=v_marks(lang)), 4)
        add("spelled.text", lambda nm: parse_marked(lang, repo, nm, o, [], variants=v_c12, bare=False), 6)
        if lang == "en":
            add("marks.ord", lambda nm: alone_in_text(lang, repo, nm, o, variants=v_marks(lang), ordinal=True), 4)
            add("spelled.ord", lambda nm: alone_in_text(lang, repo, nm, o, variants=v_all, ordinal=True), 4)
        add("plain", lambda nm: parse_ctx(lang, repo, nm, o, numbers=False), 3)
        add("foreign", lambda nm: parse_ctx(lang, repo, nm, o, numbers=False, foreign_words=True, track=True), 5)
        add("foreign.ctx", lambda nm: parse_ctx(lang, repo, nm, o, foreign_words=True), c)
        add("verbatim", lambda nm: parse_ctx(lang, repo, nm, o, numbers=False, verbatim=True, track=True), 3)
    return jobs


def const(o):
    return lambda lang: o


def apostrophe_words(repo):
    """Number words written with a typed apostrophe, each as the whole text."""
    import time
    from .interp import Interp
    from .check import Result

    def thunk(b):
        r = Result("uk.apostrophes")
        t0, r.findings = time.time(), []
        ip = Interp(repo)
        ip.load_package()
        for w, v in lex("uk").all.items():
            for a in APOS:
                x = w
                for c in "'\u2019\u02bc":
                    x = x.replace(c, a)
                if x == w and a not in w or x in [f["text"] for f in r.findings]:
                    continue
                try:
                    ip.deadline = time.time() + 20
                    ip.exc = []
                    outs = ip.call(ip.fresh(), ip.api("parse", None), [K(x), K("uk")], {})
                    got = {q.const(y) for q, y in outs}
                except (Imprecise, RecursionError, KeyError):
                    r.status, r.why = "undecided", "interpretation of " + x
                    continue
                if ip.exc or len(got) != 1:
                    continue
                ok, c = got.pop()
                r.exits += 1
                if ok and c != str(v):
                    # (a word that is left alone and one that is changed wrongly are different defects)
                    r.findings.append({"text": x, "got": c, "want": str(v), "key": x if c == x else "%s gives %s" % (x, c)})
        if r.findings:
            r.status, r.why = "violation", "words with an apostrophe"
            r.known = True
        r.wall = time.time() - t0
        return r
    return Job("uk.apostrophes", thunk, 1, 60)


@prop("C03", "Abstract interpretation of parse on automata of texts: free text with any number of number phrases, "
      "phrases with several scale words between arbitrary neighbours, phrases alone, every number word alone.",
      "the output, read against the input automaton, is the input with each number phrase replaced by its value")
def c03(repo, tier, seed):
    tags = ["track", "ctx.thousand", "ctx.hundred", "ctx.ord", "marked.none", "marked.low1", "marked.ord", "phrase.low3", "alone",
            "alone.ord"]
    if tier == "thorough":
        tags += ["ctx2", "marked.low3", "phrase.all", "phrase.ord"]
    return [apostrophe_words(repo)] + parse_jobs(repo, seed, tier, const(only_numbers), tags + ["ctx2"] * (tier != "thorough"),
                      ["hi"]) + parse_jobs(repo, seed, tier, const(only_numbers), tags, [x for x in LANGS if x != "hi"])


@prop("C04", "Abstract interpretation of parse on automata of free texts with number phrases, connecting words in every place, "
      "punctuation, digits and ordinary words.",
      "the output, read against the input automaton, keeps every other item once, unchanged and in order")
def c04(repo, tier, seed):
    tags = ["track", "track.plain", "ctx.ord", "marked.none", "marked.ord", "pairs", "alone"]
    return parse_jobs(repo, seed, tier, const(only_rest), tags + (["ctx2", "marked.low1"] if tier == "thorough" else []))


@prop("C05", "Abstract interpretation of parse on the automaton of all texts without a number word: ordinary words, digits, "
      "punctuation, separators, connecting words and any blanks.",
      "the output, read against the input automaton, is the input itself, letter for letter and blank for blank")
def c05(repo, tier, seed):
    return parse_jobs(repo, seed, tier, const(same_text), ["verbatim"])


@prop("C06", "Abstract interpretation of parse on automata of free texts whose number phrases are kept apart by separators, "
      "ordinary words and digits, with and without blanks.",
      "the output, read against the input automaton, has each number on its own and separators spaced as in the text")
def c06(repo, tier, seed):
    tags = ["ctx", "ctx.hundred", "marked.none"]
    return parse_jobs(repo, seed, tier, const(only_spacing), tags + (["ctx2", "ctx.thousand"] if tier == "thorough" else []))


@prop("C21", "Abstract interpretation of parse on automata of texts: free text, neighbouring numbers, scale phrases, every word alone.",
      "the output, read against the input automaton, has a value in place of every number word")
def c21(repo, tier, seed):
    tags = ["ctx", "ctx.ord", "pairs", "phrase.low1", "alone", "alone.ord", "spelled"]
    return parse_jobs(repo, seed, tier, no_number_left, tags + (["ctx2", "phrase.low3"] if tier == "thorough" else []))


@prop("C14", "Abstract interpretation of every public function, given a language, on automata of texts whose ordinary words are the "
      "number words of the other four languages.",
      "parse: the output, read against the input automaton, keeps every foreign word; the other functions: every exit returns None")
def c14(repo, tier, seed):
    jobs = parse_jobs(repo, seed, tier, const(text_oracle), ["foreign"] + (["foreign.ctx"] if tier == "thorough" else []))
    for lang in LANGS:
        for fn in ("parse_number", "parse_ordinal"):
            nm = "%s.%s" % (lang, fn)
            jobs += make_jobs(none_soup(lang, repo, fn, "bad", nm, foreign_words=True), nm, repo, seed)
        for shape in ("junk-good", "good-junk"):
            nm = "%s.parse_fraction.%s" % (lang, shape)
            jobs += make_jobs(frac_none(lang, repo, nm, shape, foreign_words=True), nm, repo, seed)
    return jobs


def majority(la, lb, repo, name, args=(), order_list=("aab", "aba", "baa", "babaa", "aaaabbb")):
    """More words of one language than of the other: those are numbers, the others ordinary words."""
    def make():
        out = []
        for order in order_list:
            T = Text(la, repo)
            wa = [(w, v) for w, v in lex(la).all.items() if only_in(la)(w) and not any(c in w for c in APOS)
                  and w not in lex(la).scale]
            wb = [w for w in lex(lb).all if only_in(lb)(w) and not any(c in w for c in APOS)]
            if "hi" in (la, lb):
                # a Hindi word is several tokens to the other languages
                wb = [w for w in wb if la == "hi" or re.fullmatch(r"[\w\u0300-\u036f]+", w)]
                wa = [(w, v) for w, v in wa if re.fullmatch(r"[\w\u0300-\u036f]+", w)]
            s, e = T.node(), T.node()

            def comma(x, y):
                m, z = T.node(), T.node()
                if T.hi or "hi" in (la, lb):
                    T.edge(x, m, "ws", [" "], "ws")
                else:
                    T.eps(x, m)
                T.edge(m, z, "sep", [","], "sep", brk=True)
                T.edge(z, y, "ws", [" "], "ws")
            x = s
            for i, k in enumerate(order):
                y = e if i == len(order) - 1 else T.node()
                if k == "a":
                    T.edge(x, y, "any", [w for w, _ in wa], "num", [v for _, v in wa], (("G", (("v", 1),)),), newseg=True)
                    T.phrases.append((x, y))
                else:
                    T.edge(x, y, "word", wb, "other", brk=True)
                if y != e:
                    x = T.node()
                    comma(y, x)
            G = Grammar(T, [e], s)
            for ps in T.finish(s, e):
                sp = Spec(name, T, ps, s, [e], "parse", list(args), lambda ip, q, v, G=G: aligned(ip, q, v, G), text_oracle)
                sp.fine = True
                out.append(sp)
        return out
    return make


def spaced_plain(lang, repo, name, args=()):
    """No number words, every item followed by a blank."""
    def make():
        T = Text(lang, repo, exclusive=True)
        s, b, w, e = (T.node() for _ in range(4))
        for x in (s, b):
            T.other(x, w)
            T.digits(x, w)
            T.sep(x, w)
            T.punct(x, w)
            T.conn(x, w)
            T.eps(x, e)
        T.spaces(w, b)
        T.eps(w, e)
        G = Grammar(T, [e], s)
        sps = []
        for ps in T.finish(s, e):
            if ps:
                sps.append(Spec(name, T, ps, s, [e], "parse", list(args), lambda ip, q, v: aligned(ip, q, v, G), text_oracle))
        return sps
    return make


@prop("C13", "Abstract interpretation of every public function without a language on automata of texts whose number words belong to one "
      "language only, to none, or to two languages with one in the majority.",
      "every exit gives what the language of the words (English when there is none) gives")
def c13(repo, tier, seed):
    jobs = []
    o = text_oracle
    for lang in LANGS:
        def job(tag, mk, cost=5, lang=lang):
            nm = "%s.%s" % (lang, tag)
            jobs.append(spec_job(mk(nm), nm, repo, seed, cost, 300))
        kw = {"args": [], "exclusive": True}
        job("parse.marked", lambda nm: parse_marked(lang, repo, nm, o, [], bare=False, **kw), 10)
        job("parse.plain", lambda nm: spaced_plain(lang, repo, nm))
        if lang == "en":
            job("parse.marked.ord", lambda nm: parse_marked(lang, repo, nm, o, [], ordinal=True, bare=False, **kw), 10)
        for fn in ("parse_number", "parse_ordinal"):
            job(fn, lambda nm, fn=fn: cardinal(lang, key_scales(lang, 2), fn, few=True, name=nm, **kw), 10)
            if lang == "en" and fn == "parse_ordinal":
                job("parse_ordinal.ord", lambda nm: cardinal(lang, key_scales(lang, 2), "parse_ordinal", few=True, ordinal=True,
                                                             name=nm, **kw), 10)
        for k in ("ww", "wd", "dw"):
            job("parse_fraction." + k, lambda nm, k=k: frac_text(lang, [], nm, (k[0], k[1], "over"), **kw), 5)
        for lb in LANGS:
            if lb != lang:
                job("majority." + lb, lambda nm, lb=lb: majority(lang, lb, repo, nm), 8)
    return jobs


# ------------------------------------------------------------------ unsupported languages
def codes(repo):
    """Codes outside the five: other locales, spellings near the five, names of modules, what the source singles out."""
    out = []
    for f in sorted(os.listdir(os.path.join(repo, "number_parser", "data"))):
        if f.endswith(".py"):
            out.append(f[:-3])
    for l in LANGS:
        out += [l.upper(), l.capitalize(), l + " ", " " + l, l + "\n", l + "-US", l + "_US", l + "-419", l + ".UTF-8", l + "_" + l,
                l + l, l[0], l + "g", l + "\u0301", l + ".info", "data." + l, "number_parser.data." + l, "../data/" + l, l + "\0",
                l + ",es", "." + l, l[::-1], l + "-" + l.upper(), l + "@x", "x" + l, "".join(chr(ord(c) + 0xfee0) for c in l)]
    out += ["", " ", ".", "..", "/", "*", "None", "auto", "default", "english", "English", "spanish", "hindi", "eng", "spa", "hin", "rus",
            "ukr", "espa\u00f1ol", "xx", "zz", "tlh", "und", "root", "en,es", "en es", "es-419", "en-GB", "pt-BR", "zh-Hans-CN",
            "sr-Latn-RS", "\u0435\u043d", "\u0930", "info", "__init__", "os", "sys", "parser", "number_parser", "number_parser.parser", "0",
            "1", "True", "in", "iw", "mo", "ua", "sp", "e", "n", "ene", "nes", "esh", "ruuk", "a" * 50]
    from .texts import harvest
    out += harvest(repo)
    seen = []
    for c in out:
        if c not in LANGS and c not in seen:
            seen.append(c)
    return seen


def refused(repo, fn, cs, name):
    """The call raises ValueError for each of the codes, and imports nothing but data of the five languages."""
    from .check import Result
    from .interp import Interp
    from .models import Models
    from .strs import mkS

    def thunk(budget):
        R = Result(name)
        R.findings = []
        t0 = time.time()
        samples = ["two", "cows", "dos vacas", "\u0926\u094b", "\u0434\u0432\u0430", "and", "!", "two thousand and five."]
        W = Words("en")
        a, b = W.node(), W.node()
        starts = [a]
        if fn == "parse_fraction":
            samples = ["%s%sthree" % (x, s) for x in samples for s in (" over ", "/", " divided by ", "by")]
            starts = []
            for x in ("over", "by", "/", "divided by"):
                i, m, n, p, q = (W.node() for _ in range(5))
                starts.append(i)
                W.edge(i, m, "word", ["two", "cows", "dos", "\u0926\u094b", "\u0434\u0432\u0430"], "other")
                W.edge(m, p, "ws", [" "], "ws")
                W.edge(p, q, "fsep", [x], "fsep")
                W.edge(q, n, "ws", [" "], "ws")
                W.edge(n, b, "word", ["two", "cows", "dos"], "other")
        else:
            m = W.node()
            W.edge(a, b, "word", ["two", "cows", "dos", "\u0926\u094b", "\u0434\u0432\u0430", "and"], "other")
            W.edge(a, m, "word", ["two", "cows"], "other")
            n = W.node()
            W.edge(m, n, "ws", [" ", "\t"], "ws")
            W.edge(n, b, "word", ["hundred", "vacas", "tres", "!"], "other")
            if fn in ("parse", "parse_ordinal"):
                samples += ["", " ", "5", "42 7"]
                W.edge(a, b, "digits", ["5", "42"], "other")
        allowed = {"number_parser.data." + l for l in LANGS} | {"number_parser.data"}
        ip = Interp(repo)
        ip.load_package()
        ip.canonpos = W.canonpos

        def attempt(text, c, a):
            """Why the call may not be refused, else None."""
            ip.exc, ip.events = [], []
            Models.imports.clear()
            ip.deadline = time.time() + 60
            st = ip.fresh()
            v = K(text) if text is not None else mkS(st, W.pieces(a, b))
            outs = ip.call(st, ip.api(fn), [v, K(c)], {})
            R.exits += len(outs) + len(ip.exc)
            bad = sorted(Models.imports - allowed) + [str(d) for k, d, _, _ in ip.events if k.startswith("import")]
            if bad:
                return "imports %s" % bad[0]
            if outs:
                ok, x = outs[0][0].const(outs[0][1])
                return "returns %r" % (x,) if ok else "returns a value"
            for q, e in ip.exc:
                if e.cls != "ValueError":
                    return "raises %s at %s" % (e.cls, e.where)
            return None if ip.exc else "has no result"
        for c in cs:
            why = None
            try:
                for x in starts:
                    why = why or attempt(None, c, x)
            except (Imprecise, RecursionError, KeyError) as e:
                R.status, R.why = "undecided", "%s: %s" % (c, e)
            if why is None:
                R.items = getattr(R, "items", 0) + 1
                continue
            if R.status == "proved":
                R.status, R.why = "undecided", "%r: %s" % (c, why)
            for t in samples:
                try:
                    w = attempt(t, c, a)
                except (Imprecise, RecursionError, KeyError):
                    continue
                if w is not None and w != "has no result":
                    R.findings.append({"key": "%s(%r, %r)" % (fn, t, c), "call": "%s(%r, %r)" % (fn, t, c), "got": w,
                                       "want": "ValueError, nothing imported"})
                    R.status, R.why = "violation", "%s with language %r %s" % (fn, c, w)
                    break
            if R.findings:
                break
        R.stats = {"loops": ip.stats["loops"], "loop_states": ip.stats["heads"], "statements": ip.stats["steps"],
                   "functions": sorted(ip.stats["functions"])}
        R.wall = time.time() - t0
        return R
    return Job(name, thunk, 3)


@prop("C15", "Abstract interpretation of every public function on texts with words, given each of some 300 codes outside the five: the "
      "other locales' codes, spellings near the five, module names and paths, and every string the source singles out.",
      "every exit raises ValueError, and no module but the data of the five languages is imported on the way",
      CORE + ["a code outside the enumerated ones is treated like one of them"])
def c15(repo, tier, seed):
    jobs = []
    for fn in ("parse", "parse_number", "parse_ordinal", "parse_fraction"):
        for i, cs in enumerate(chunks(codes(repo), 60)):
            jobs.append(refused(repo, fn, cs, "%s.codes%d" % (fn, i)))
    return jobs


# ------------------------------------------------------------------ purity
def quiet(mk):
    """The obligation without a claim on its result: only its effects matter."""
    def make():
        out = []
        sps = mk()
        for sp in sps if isinstance(sps, list) else [sps]:
            sp.judge = lambda ip, q, v: None
            sp.exc_ok = lambda e: True
            sp.unique = frozenset()
            sp.fine = False
            out.append(sp)
        return out
    return make


@prop("C16", "Abstract interpretation of every public function in every language and without one, recording every write to a record "
      "that outlives the call and every use of process state; pairs of calls, one after and one inside the other, when there is one.",
      "no path writes to module, class, default-argument or data-module state or reads process state; else no call notices")
def c16(repo, tier, seed):
    from .pure import job, pair_job, PROBES, more_probes
    jobs = []
    ps = PROBES + [c for c in more_probes() if c not in PROBES]
    for k in range(0, len(ps), 8):
        nm = "pairs.%02d" % (k // 8)
        jobs.append(Job(nm, pair_job(repo, nm, ps[k:k + 8], ps, False, True), 30, 150))
    for k in range(0, 32, 4):
        nm = "nested.%02d" % (k // 4)
        jobs.append(Job(nm, pair_job(repo, nm, PROBES[k:k + 4], PROBES[:16], True, False), 25, 100))

    def add(fn, lang, tag, mk, cost=5):
        nm = "%s.%s.%s" % (lang or "auto", fn, tag)
        jobs.append(Job(nm, job(repo, nm, fn, lang, quiet(mk(nm)), seed, run), cost, 300))
    for lang in LANGS:
        o = text_oracle
        add("parse", lang, "marked", lambda nm: parse_marked(lang, repo, nm, o, [], bare=False), 10)
        add("parse", lang, "alone", lambda nm: alone_in_text(lang, repo, nm, o), 2)
        add("parse", lang, "plain", lambda nm: parse_ctx(lang, repo, nm, o, numbers=False), 2)
        add("parse", None, "alone." + lang, lambda nm: alone_in_text(lang, repo, nm, o, args=[]), 2)
        add("parse", None, "plain." + lang, lambda nm: spaced_plain(lang, repo, nm), 2)
        for fn in ("parse_number", "parse_ordinal"):
            add(fn, lang, "number", lambda nm: cardinal(lang, key_scales(lang, 1), fn, few=True, name=nm), 5)
            add(fn, lang, "bad", lambda nm: none_soup(lang, repo, fn, "bad", nm), 5)
            add(fn, None, "number." + lang, lambda nm: cardinal(lang, [], fn, few=True, name=nm, args=[], exclusive=True), 5)
        for k in ("ww", "dw"):
            add("parse_fraction", lang, k, lambda nm: frac_text(lang, [], nm, (k[0], k[1], "over")), 4)
        add("parse_fraction", None, "ww." + lang, lambda nm: frac_text(lang, [], nm, ("w", "w", "/"), args=[], exclusive=True), 4)
    if True:
        add("parse_ordinal", "en", "ordinal", lambda nm: cardinal("en", key_scales("en", 1), "parse_ordinal", few=True, ordinal=True, name=nm), 5)
        add("parse", "en", "ordinal", lambda nm: parse_marked("en", repo, nm, text_oracle, [], ordinal=True, bare=False), 5)
    return jobs


# ------------------------------------------------------------------ totality
_ODD = {}


def odd_chars():
    """One or two characters for each way a character can behave under the string operations the package may use."""
    if not _ODD:
        import unicodedata as ud
        by = {}
        for i in range(_sys.maxunicode + 1):
            if 0xd800 <= i < 0xe000:
                continue
            c = chr(i)
            d = "".join(x for x in ud.normalize("NFD", c.lower()) if ud.category(x) != "Mn")
            w = re.match(r"\w", c) is not None
            if c.isalpha() and w and d and d.isalpha() and not c.isnumeric():
                key = ("letter", len(d) > 1, c.isupper(), c.islower(), len(c.lower()) > 1, d == c)
            else:
                key = (c.isspace(), re.match(r"\s", c) is not None, c.isdecimal(), c.isdigit(), c.isnumeric(), c.isalpha(), w,
                       ud.category(c)[0], ud.category(c) == "Mn", not d, not d.strip(), d != c, c.isprintable())
            by.setdefault(key, []).append(c)
        _ODD["all"] = sorted({c for l in by.values() for c in (l[0], l[len(l) // 2], l[-1])} | {"\x00", "\ufeff", "\u200d", "\u0130"})
    return _ODD["all"]


def type_spec(name, T, ps, fn, args):
    """The call must come back with a result of the documented type."""
    def good(c):
        if fn == "parse":
            return type(c) is str
        if fn == "parse_fraction":
            return c is None or type(c) is str and re.fullmatch(r"-?[0-9]+/-?[0-9]+", c) is not None
        return c is None or type(c) is int

    def judge(ip, q, v):
        ok, c = q.const(v)
        if ok:
            return None if good(c) else "returns %r" % (c,)
        if type(v) is Rel:
            u, m = q.ins[v.inst]
            bad = [v.tab[i] for i in bits(m) if not good(v.tab[i])]
            return "returns %r" % (bad[0],) if bad else None
        if fn in ("parse", "parse_fraction"):
            return None if ip.models.isstr(q, v) else "may return something else than a string"
        return None if type(v) is N else "may return something else than an integer or None"

    def oracle(path):
        return good, {"parse": "a string", "parse_fraction": "None or 'a/b' of two integers"}.get(fn, "an integer or None")
    from .check import Spec
    sp = Spec(name, T, ps, None, [], fn, args, judge, oracle)
    sp.coarse = True
    return sp


def total(lang, repo, fn, shape, name):
    args = [] if lang is None else [K(lang)]
    base = lang or "en"

    def make():
        if shape.startswith("sep-"):
            return around(shape[4:])
        T = Soup(base, repo)
        start, end = T.node(), T.node()
        hi = T.hi
        odd = [c for c in odd_chars() if not (c.isspace() or re.match(r"\s", c))]
        blank = list(dict.fromkeys(list(WS_FEW) + [c for c in odd_chars() if c.isspace() or re.match(r"\s", c)]))
        num = next(iter(T.lx.unit))
        if shape == "odd":
            # one unusual character, alone or between blanks, or joined to a digit, a letter or a number word
            a, b, c, d, e = (T.node() for _ in range(5))
            T.edge(start, a, "ws", blank, "ws")
            T.eps(start, a)
            part = re.compile(r"[\w\u0300-\u036f]")
            inner = odd if hi else [c for c in odd if part.match(c)]
            T.edge(a, d, "odd", [x for c in inner for x in (c, c + "5", "5" + c, c + "x", "x" + c, c + num, num + c)], "odd", brk=True)
            if not hi:
                # (words are cut at these)
                odd = [c for c in odd if not part.match(c)]
                T.edge(a, b, "pre", ["5", "x", num, "0", "_", "\u0663"], "odd", brk=True)
                T.eps(a, b)
                T.edge(b, c, "odd", odd, "odd", brk=True)
                T.edge(c, d, "post", ["5", "x", num, "0", "_", "\u0663"], "odd", brk=True)
                T.eps(c, d)
            T.edge(d, end, "ws", blank, "ws")
            T.eps(d, end)
        elif shape == "blank":
            # blanks of every kind, and one or two words between them
            a, b, c, d = (T.node() for _ in range(4))
            T.edge(start, start, "ws", blank, "ws")
            T.eps(start, end)
            T.edge(start, a, "word", ["5", "x", num, "\u0663", "\xb2"], "odd", brk=True)
            T.edge(a, b, "ws", blank, "ws")
            T.edge(b, c, "word", ["5", "x", num, "\u0663"], "odd", brk=True)
            for x in (a, b, c):
                T.eps(x, d)
            T.edge(d, d, "ws", blank, "ws")
            T.eps(d, end)
        elif shape == "connectors":
            B, W = start, T.node()
            for x in T.soup(B, W, numbers=False, other=False, punct=False, digits=False, seps=True):
                T.eps(x, end)
            if not hi:
                T.edge(B, B, "apos", APOS, "punct", brk=True)
        elif shape == "free":
            W = T.node()
            for x in T.soup(start, W, numbers=False):
                T.eps(x, end)
        else:
            # up to so many number words, connecting words and unusual characters
            n = start
            for i in range(int(shape[5:])):
                m, o = T.node(), T.node()
                T.edge(n, m, "any", T.number_words(fn in ("parse", "parse_ordinal")), "word", brk=True)
                T.edge(n, m, "odd", odd[:1] + ["!", "'", "\xb2", "\u0e33"], "odd", brk=True)
                T.digits(n, m)
                T.conn(n, m, True)
                T.edge(m, o, "ws", WS_FEW, "ws")
                T.eps(n, end)
                T.eps(m, end)
                n = o
            T.eps(n, end)
        return [type_spec(name, T, ps, fn, args) for ps in T.finish(start, end)]

    def around(s):
        # a separator with anything on its sides
        T = Soup(base, repo)
        start, p, q, end = (T.node() for _ in range(4))
        odd = [c for c in odd_chars() if not (c.isspace() or re.match(r"\s", c)) and c != "/"]
        num = next(iter(T.lx.unit))

        def side(x, y):
            m, n = T.node(), T.node()
            T.edge(x, x, "ws", WS_FEW, "ws")
            T.edge(x, m, "any", T.number_words(False), "word", brk=True)
            T.edge(x, m, "odd", odd, "odd", brk=True)
            T.digits(x, m)
            T.conn(x, m)
            T.edge(x, m, "word", frac_words(base), "other", brk=True)
            T.edge(m, m, "ws", WS_FEW, "ws")
            T.eps(x, y)
            T.eps(m, y)
        side(start, p)
        T.edge(p, q, "fsep", [s], "fsep", brk=True)
        side(q, end)
        return [type_spec(name, T, ps, fn, args) for ps in T.finish(start, end)]
    return make


@prop("C09", "Abstract interpretation of every public function on automata of texts: unusual characters (representatives of every "
      "behaviour of a Unicode character under the string operations in use) alone and joined to digits, letters and number words, "
      "every kind of blank, connecting words and marks only, free text, any sequence of up to three words.",
      "no exit raises and every exit returns the documented type")
def c09(repo, tier, seed):
    jobs = []
    for lang in LANGS + (None,):
        for fn in ("parse", "parse_number", "parse_ordinal", "parse_fraction"):
            if fn == "parse_fraction":
                shapes = ["odd", "blank", "connectors"] + ["sep-" + s for s in FSEPS]
            else:
                shapes = ["odd", "blank", "connectors", "free", "words3"]
                if tier == "thorough":
                    shapes += ["words4"]
            if lang is None:
                # (a text cut in the ways of several languages is beyond the engine unless its words are apart)
                shapes = ["odd", "blank"] + [x for x in shapes if x.startswith("words")]
            for shape in shapes:
                nm = "%s.%s.%s" % (lang or "auto", fn, shape)
                jobs.append(spec_job(total(lang, repo, fn, shape, nm), nm, repo, seed, 20 if shape[:5] == "words" else 5, 100))
    return jobs
