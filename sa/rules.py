"""Rules over the language tables, their translation sources and the table generator (nothing is run)."""
import ast
import json
import os
import re

from .lang import LANGS, lex, strip_marks
from .check import Result

SECTIONS = ("UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN")
ROLE = dict(zip(("unit", "direct", "tens", "hundreds", "scale"), SECTIONS))


class AnchorGone(Exception):
    pass


def table(repo, loc):
    """(info dict, line of each entry) of a language table, read from its syntax tree."""
    p = os.path.join(repo, "number_parser", "data", loc + ".py")
    with open(p, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, p)
    info, lines, dups = None, {}, []
    for n in tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            if any(isinstance(t, ast.Name) and t.id == "info" for t in ts):
                try:
                    info = ast.literal_eval(n.value)
                except (ValueError, TypeError):
                    info = None
                if isinstance(n.value, ast.Dict):
                    for k, v in zip(n.value.keys, n.value.values):
                        sec = getattr(k, "value", None)
                        if isinstance(v, ast.Dict):
                            seen = {}
                            for k2, v2 in zip(v.keys, v.values):
                                w = getattr(k2, "value", None)
                                lines[(sec, w)] = getattr(k2, "lineno", 0)
                                if w in seen:
                                    dups.append((sec, w, k2.lineno))
                                seen[w] = 1
                        lines[(sec, None)] = getattr(v, "lineno", 0)
    simple = all(isinstance(n, (ast.Assign, ast.AnnAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
                 for n in tree.body) and len([n for n in tree.body if not isinstance(n, ast.Expr)]) == 1
    if info is None or not simple:
        info = evaluated(repo, loc)
    return info, lines, dups


def evaluated(repo, loc):
    """The table as the abstract interpreter sees it, for tables that are not one literal."""
    from .interp import Interp
    from .vals import K, Ref, Imprecise
    ip = Interp(repo)
    ip.load_package(["number_parser.data." + loc])
    v = ip.api("info", "number_parser.data." + loc)
    st = ip.fresh()

    def conv(v):
        ok, c = st.const(v)
        if ok:
            return c
        if type(v) is Ref:
            rec = ip.get(st, v.id)
            if type(rec).__name__ == "Dct":
                return {k: conv(x) for k, x in rec.d.items()}
            if type(rec).__name__ == "Lst":
                return [conv(p[1]) for p in rec.pieces]
        raise Imprecise("table %s" % loc)
    return conv(v)


def locales(repo):
    d = os.path.join(repo, "number_parser", "data")
    return sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f != "__init__.py")


def result(name, findings, items, stats=None):
    r = Result(name)
    r.items = items
    r.findings = findings
    if findings:
        r.status, r.why = "violation", findings[0]["what"]
    r.exits = items
    r.stats = stats or {}
    return r


def finding(file, line, what, **kw):
    d = {"key": "%s: %s" % (file, what), "where": "%s:%s" % (file, line), "what": what}
    d.update(kw)
    return d


# ------------------------------------------------------------------ C17
def rule_lexicon(repo, lang):
    F, n = [], 0
    info, lines, _ = table(repo, lang)
    file = "number_parser/data/%s.py" % lang
    L = lex(lang)

    def norm(w):
        return strip_marks(w.lower())

    def noap(w):
        return w.replace("'", "").replace("\u2019", "")
    by = {}
    for sec in SECTIONS:
        for w, v in info[sec].items():
            n += 1
            by.setdefault(norm(w), {}).setdefault(sec, []).append((w, v))
    for role, sec in ROLE.items():
        have = {norm(w): v for w, v in info[sec].items()}
        for w, v in getattr(L, role).items():
            n += 1
            k = norm(w)
            if k not in have and norm(noap(w)) not in have:
                F.append(finding(file, lines.get((sec, None), 0), "the %s word %r (%d) is missing from %s" % (role, w, v, sec)))
            elif k in have and have[k] != v:
                F.append(finding(file, lines.get((sec, w), 0), "%r means %d but is listed as %r" % (w, v, have[k])))
    known = {norm(w): v for w, v in L.all.items()}
    for k, secs in by.items():
        vals = {v for ws in secs.values() for _, v in ws}
        if len(vals) > 1:
            w, _ = list(secs.values())[0][0]
            F.append(finding(file, lines.get((list(secs)[0], w), 0), "%r has several values %s" % (w, sorted(vals))))
        if k in known and vals != {known[k]}:
            w, _ = list(secs.values())[0][0]
            F.append(finding(file, lines.get((list(secs)[0], w), 0), "%r means %d but is listed as %s" % (
                w, known[k], sorted(vals))))
    skips = {norm(x) for x in info["SKIP_TOKENS"]}
    for k in skips:
        n += 1
        if k in by:
            F.append(finding(file, lines.get(("SKIP_TOKENS", None), 0), "%r is a number word and a connecting word" % k))
    for c in L.connectors:
        if norm(c) not in skips:
            F.append(finding(file, lines.get(("SKIP_TOKENS", None), 0), "the connecting word %r is missing" % c))
    for c in skips:
        if c not in {norm(x) for x in L.connectors} and c in {norm(w) for w in known}:
            F.append(finding(file, lines.get(("SKIP_TOKENS", None), 0), "%r cannot be a connecting word" % c))
    # words of number words' shape that can be no token of a text
    for k, secs in by.items():
        for sec, ws in secs.items():
            for w, v in ws:
                n += 1
                flat = noap(w)
                if not w or any(c.isspace() for c in w):
                    F.append(finding(file, lines.get((sec, w), 0), "%r can never be one token" % w))
                elif lang != "hi" and re.search(r"[^\w\u0300-\u036f]", flat):
                    F.append(finding(file, lines.get((sec, w), 0), "%r can never be one token" % w))
                elif "\xad" in w:
                    F.append(finding(file, lines.get((sec, w), 0), "%r has a soft hyphen, which texts lose" % w))
    return result("tables." + lang, F, n)


# ------------------------------------------------------------------ C18
def extract(rules):
    """What the spellout rules of a locale say: {section: {word: value}}, and the words of equal standing."""
    out = {s: {} for s in SECTIONS}
    for name, rs in rules.items():
        if not ("spellout-cardinal" in name or "spellout-numbering" in name) or "cents" in name:
            continue
        for key, val in rs.items():
            try:
                num = int(key)
            except ValueError:
                continue
            val = val.replace("\xad", "").replace(";", "")
            lt, gt = val.count("<"), val.count(">")
            if "=" in val:
                continue
            digits = str(num)
            zeros = len(digits) - len(digits.rstrip("0")) if num else 0
            if lt == 0 and gt == 0:
                if val not in ("", "ERROR") and num <= 99:
                    out["UNIT_NUMBERS" if num <= 9 else "DIRECT_NUMBERS"][val] = num
            elif lt == 0 and gt == 2:
                root = val.split("[" if "[" in val else ">")[0].strip()
                if root and digits[0] != "1" and zeros in (1, 2):
                    out["TENS" if zeros == 1 else "HUNDREDS"][root] = num
            elif lt == 2 and gt == 2 and zeros >= 2:
                rest = val.rsplit("<", 1)[1]
                if not rest.startswith(" "):
                    continue
                if "$" in rest:
                    ws = re.findall(r"\{(.*?)\}", rest)
                else:
                    ws = [rest.split("[" if "[" in rest else ">")[0].strip()]
                for w in ws:
                    out["BIG_POWERS_OF_TEN"][w] = 10 ** zeros
    return out


def source_dirs(repo):
    b = os.path.join(repo, "number_parser_data")
    return os.path.join(b, "raw_cldr_translation_data"), os.path.join(b, "supplementary_translation_data")


def expected_table(repo, loc):
    raw, sup = source_dirs(repo)
    rp, sp = os.path.join(raw, loc + ".json"), os.path.join(sup, loc + ".json")
    if not (os.path.exists(rp) and os.path.exists(sp)):
        return None
    with open(rp, encoding="utf-8") as f:
        r = json.load(f)
    with open(sp, encoding="utf-8") as f:
        s = json.load(f)
    try:
        rules = r["rbnf"]["rbnf"]["SpelloutRules"]
    except KeyError:
        return None
    out = extract(rules)
    for sec in SECTIONS:
        out[sec].update({w: int(v) for w, v in s[sec].items()})
    out["SKIP_TOKENS"] = s["SKIP_TOKENS"]
    if "USE_LONG_SCALE" in s:
        out["USE_LONG_SCALE"] = s["USE_LONG_SCALE"]
    return out


def rule_sources(repo, locs):
    F, n = [], 0
    for loc in locs:
        file = "number_parser/data/%s.py" % loc
        want = expected_table(repo, loc)
        info, lines, _ = table(repo, loc)
        if want is None:
            want = {s: {} for s in SECTIONS}
            want["SKIP_TOKENS"] = []
        for sec in SECTIONS:
            have = info.get(sec, {})
            for w, v in want[sec].items():
                n += 1
                if w not in have:
                    F.append(finding(file, lines.get((sec, None), 0), "%r (%d) of the sources is missing from %s" % (w, v, sec)))
                elif have[w] != v:
                    F.append(finding(file, lines.get((sec, w), 0), "%r is %d in the sources, %r in the table" % (w, v, have[w])))
            for w in have:
                n += 1
                if w not in want[sec]:
                    F.append(finding(file, lines.get((sec, w), 0), "%r in %s comes from no source" % (w, sec)))
        n += 2
        if sorted(info.get("SKIP_TOKENS", ())) != sorted(want["SKIP_TOKENS"]):
            F.append(finding(file, lines.get(("SKIP_TOKENS", None), 0), "connecting words differ from the sources: %r, not %r" % (
                info.get("SKIP_TOKENS"), want["SKIP_TOKENS"])))
        if "USE_LONG_SCALE" in want and info.get("USE_LONG_SCALE") != want["USE_LONG_SCALE"]:
            F.append(finding(file, lines.get(("USE_LONG_SCALE", None), 0), "scale flag differs from the sources"))
    return result("sources." + locs[0] + "-" + locs[-1], F, n)


def rule_all_locales(repo):
    """Every locale of the sources that has spellout rules has a table."""
    F, n = [], 0
    have = set(locales(repo))
    raw, _ = source_dirs(repo)
    for f in sorted(os.listdir(raw)):
        loc = f.split(".")[0]
        n += 1
        if f.endswith(".json") and loc not in have and f not in ("root.json", "es-419.json"):
            if expected_table(repo, loc) is not None:
                F.append(finding("number_parser/data/%s.py" % loc, 0, "the table of locale %s is missing" % loc))
    return result("sources.locales", F, n)


# ------------------------------------------------------------------ C19
def rule_wellformed(repo, locs):
    F, n = [], 0

    def isint(v):
        return type(v) is int
    kind = {
        "UNIT_NUMBERS": lambda v: 0 <= v <= 9,
        "DIRECT_NUMBERS": lambda v: 10 <= v <= 99,
        "TENS": lambda v: v in range(20, 100, 10),
        "HUNDREDS": lambda v: v in range(100, 1000, 100),
        "BIG_POWERS_OF_TEN": lambda v: v >= 100 and set(str(v)[1:]) == {"0"} and str(v)[0] == "1",
    }
    for loc in locs:
        file = "number_parser/data/%s.py" % loc
        info, lines, dups = table(repo, loc)
        if not isinstance(info, dict):
            F.append(finding(file, 1, "the table is no dictionary"))
            continue
        for sec in SECTIONS:
            d = info.get(sec)
            if not isinstance(d, dict):
                F.append(finding(file, 1, "section %s is missing" % sec))
                continue
            for w, v in d.items():
                n += 1
                if not isinstance(w, str) or not w:
                    F.append(finding(file, lines.get((sec, w), 0), "%r in %s is no word" % (w, sec)))
                elif not isint(v) or not kind[sec](v):
                    F.append(finding(file, lines.get((sec, w), 0), "%r: %r does not belong in %s" % (w, v, sec)))
        for sec, w, ln in dups:
            F.append(finding(file, ln, "%r is listed twice in %s" % (w, sec)))
        n += 2
        sk = info.get("SKIP_TOKENS")
        if not isinstance(sk, list) or any(not isinstance(x, str) or not x for x in sk):
            F.append(finding(file, lines.get(("SKIP_TOKENS", None), 0), "SKIP_TOKENS is no list of words"))
        if type(info.get("USE_LONG_SCALE")) is not bool and (loc in LANGS or "USE_LONG_SCALE" in info):
            F.append(finding(file, lines.get(("USE_LONG_SCALE", None), 0), "USE_LONG_SCALE is no boolean"))
        if loc in LANGS and not F:
            unit = set(info["UNIT_NUMBERS"].values())
            small = set(unit) | set(info["DIRECT_NUMBERS"].values())
            tens = set(info["TENS"].values())
            small |= tens | {t + u for t in tens for u in unit}
            hund = set(info["HUNDREDS"].values()) | set(info["BIG_POWERS_OF_TEN"].values())
            for v in range(100):
                n += 1
                if v not in small:
                    F.append(finding(file, 1, "no words for %d" % v))
            for v in (100, 1000):
                n += 1
                if v not in hund:
                    F.append(finding(file, 1, "no word for %d" % v))
    return result("format." + locs[0] + "-" + locs[-1], F, n)
