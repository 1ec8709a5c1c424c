"""Purity: writes to state that outlives a call, found by abstract interpretation, and whether another call can see them.

Every write to a record that exists outside the call (module and class variables, default arguments, tables of the data
modules, objects handed out by caches) and every read of process state is an event of the analysis.  No event on any
path: the calls are pure.  With events, pairs of calls are interpreted one after the other, and one inside the other, and
compared with each call on its own; only an observable difference is reported, so memo tables stay quiet.
"""
import random
import time

from .vals import *
from .state import *
from .check import Result, Refiner
from .interp import Interp
from .lang import LANGS, lex

IMPURE = ("os.environ", "os.getenv", "os.getcwd", "os.urandom", "time.", "random.", "datetime.", "locale.", "open", "input",
          "print", "sys.stdin", "sys.stdout", "io.open", "secrets.", "uuid.", "os.getpid", "os.listdir", "pathlib.")

PROBES = [
    ("parse", "two hundred and five cows, dos, \u0434\u0432\u0430, \u0926\u094b", "en"), ("parse", "uno y dos two first", "es"),
    ("parse", "\u0926\u094b \u0938\u094c two dos \u0434\u0432\u0430", "hi"), ("parse", "\u0434\u0432\u0430 \u0442\u044b\u0441\u044f\u0447\u0438 two dos \u0434\u0432\u0456", "ru"),
    ("parse", "\u0434\u0432\u0456 \u0442\u0438\u0441\u044f\u0447\u0456 two dos \u0434\u0432\u0430", "uk"), ("parse", "two and, three hundred", None), ("parse", "uno y, mil", None),
    ("parse", "no numbers here", None), ("parse", "\u0434\u0432\u0430 \u0438 \u0442\u0440\u0438", None), ("parse_number", "two hundred", "en"),
    ("parse_number", "dos mil", "en"), ("parse_number", "dos mil", "es"), ("parse_number", "mil", None),
    ("parse_number", "\u0434\u0432\u0430", None), ("parse_number", "cows", None), ("parse_number", "42", None),
    ("parse_ordinal", "twenty-first", "en"), ("parse_ordinal", "twenty-first", None), ("parse_ordinal", "dos", "es"),
    ("parse_fraction", "two over three", "en"), ("parse_fraction", "dos over tres", None), ("parse_fraction", "two over dos", "es"),
    ("parse_fraction", "\u0434\u0432\u0430 / 5", "ru"), ("parse", "", "en"), ("parse", "first. second, third", "en"), ("parse", "TWO", "en"),
    ("parse", "two", "hi"), ("parse_number", "\u0926\u0938", "hi"), ("parse_number", "nueve", "es"), ("parse", "five and", "en"),
    ("parse_number", "two cows", "en"), ("parse_number", "\u0434\u0432\u0456", "uk"), ("parse_number", "two", "xx"),
]


def more_probes():
    """Texts that two languages match equally well, words two languages share, odd separators and joining words."""
    out = []
    for i, a in enumerate(LANGS):
        la = lex(a)
        for b in LANGS[i + 1:]:
            lb = lex(b)
            def own(l, o):
                ws = [w for role in ("unit", "direct", "tens") for w in getattr(l, role)
                      if w not in o.all and all(w not in lex(x).all or x == l.lang for x in LANGS) and w.isalpha()]
                return ws[len(ws) // 2] if ws else next(iter(l.unit))
            x, y = own(la, lb), own(lb, la)
            out.append(("parse", "%s cows %s" % (y, x), None))
            sh = [w for w in la.all if w in lb.all]
            if sh:
                out += [("parse", sh[0], None), ("parse", sh[-1], b)]
            out.append(("parse_number", "%s %s" % (y, x), None))
        c = la.connectors
        w = [u for u in la.unit if la.unit[u] in (2, 3)]
        if c:
            out.append(("parse", "%s %s, x" % (w[0], c[0]), a))
            out.append(("parse", "%s %s \u0964x" % (w[0], c[0]), a))
            out.append(("parse_number", "%s %s" % (w[0], c[0]), a))
            for b in LANGS:
                if b != a and lex(b).connectors and not set(c) & set(lex(b).connectors):
                    out.append(("parse_number", "%s %s" % (w[0], lex(b).connectors[0]), a))
                    out.append(("parse", "%s %s, x" % (w[0], lex(b).connectors[0]), a))
        out.append(("parse", "x-%s; %s" % (w[0], w[-1]), a))
        out.append(("parse", "x-\u0926\u094b; dos; \u0434\u0432\u0430", a))
        out.append(("parse", "5 %s" % w[0], a))
        out.append(("parse", "%s\u0964%s\u3002%s;x" % (w[0], w[-1], w[0]), a))
        out.append(("parse", "%s,%s. %s!x" % (w[0], w[-1], w[0]), a))
    return [c for k, c in enumerate(out) if c not in out[:k]]


class Replay:
    def __init__(self, repo):
        ip = self.ip = Interp(repo)
        ip.load_package()
        ip.canonpos = lambda p: p
        ip.concrete = True
        self.alone_ = {}
        self.nested = 0

    def fresh(self):
        return self.ip.fresh()

    def run(self, st, call):
        """(state after, outcome) of a call on constants in a state; outcome None when not determined."""
        ip = self.ip
        fn, text, lang = call
        saved = ip.exc, ip.loops, ip.logs, ip.depth, ip.line
        ip.exc, ip.loops, ip.logs, ip.depth = [], [], [], 0
        try:
            q = st.copy()
            r = q.new()
            q.heap[r] = Frame({}, None, None, ip.modules[ip.package].frame)
            q.frames = (r,)
            outs = ip.call(q, ip.api(fn), [K(text)] + ([K(lang)] if lang is not None else []), {})
            if len(outs) + len(ip.exc) != 1:
                return None, None
            if ip.exc:
                return ip.exc[0][0], "raises %s" % ip.exc[0][1].cls
            q, v = outs[0]
            ok, c = q.const(v)
            return (q, repr(c)) if ok else (None, None)
        except (Imprecise, RecursionError, KeyError):
            return None, None
        finally:
            ip.exc, ip.loops, ip.logs, ip.depth, ip.line = saved

    def alone(self, call):
        r = self.alone_.get(call)
        if r is None:
            self.ip.events = []
            self.ip.deadline = time.time() + 30
            st, x = self.run(self.fresh(), call)
            ev = [(k, d, w) for k, d, w, _ in self.ip.events]
            r = self.alone_[call] = (st, x, ev)
        return r

    def after(self, st, call):
        self.ip.deadline = time.time() + 30
        return self.run(st, call)

    def inside(self, a, b, kind, k):
        """Outcomes of a and b when b runs whole at the k-th write ('w') or call ('c') of a."""
        ip = self.ip
        n = [0]
        got = [None]

        def hook(st, _):
            if got[0] is not None or n[0] < 0:
                return
            n[0] += 1
            if n[0] == k:
                n[0] = -1
                q, x = self.run(st, b)
                if q is None:
                    got[0] = ("?",)
                    return
                got[0] = (x,)
                for r, rec in q.heap.items():
                    if r not in st.heap or r in ip.base or type(rec) is not Frame:
                        st.heap[r] = rec
                st.seen = q.seen
                st.nx = max(st.nx, q.nx)
        ip.deadline = time.time() + 60
        setattr(ip, "on_event" if kind == "w" else "on_call", hook)
        try:
            st, x = self.run(self.fresh() if self.start is None else self.start, a)
        finally:
            ip.on_event = ip.on_call = None
        if got[0] is None:
            return None
        return x, got[0][0]

    start = None


def show(c):
    return "%s(%r%s)" % (c[0], c[1], "" if c[2] is None else ", %r" % (c[2],))


def texts_of(spec, repo, seed, n):
    """Texts that together take every edge of the input grammar of an obligation."""
    out = []
    rf = Refiner(spec, repo, seed)
    for masks in rf.cover():
        for p in rf.choices(masks, 1):
            t = p.text()
            if t not in out:
                out.append(t)
    rnd = random.Random(seed)
    rnd.shuffle(out)
    return out[:n]


def job(repo, name, fn, lang, make, seed, run_spec):
    def thunk(budget):
        t0 = time.time()
        R = Result(name)
        R.findings = []
        sps = make()
        sps = sps if isinstance(sps, list) else [sps]
        events, undecided = [], None
        for sp in sps:
            r = run_spec(sp, repo, seed, budget / 2 / len(sps))
            R.exits += r.exits
            R.stats = r.stats
            events += [e for e in r.events if e not in events]
            if r.status != "proved":
                undecided = r.why
        rp = Replay(repo)
        calls = [(fn, t, lang) for sp in sps for t in texts_of(sp, repo, seed, 24)]
        calls += [p for p in PROBES[:12] if p not in calls]
        trig = {}
        unknown = 0
        for c in calls:
            st, x, ev = rp.alone(c)
            if st is None:
                unknown += 1
                continue
            for k, d, w in ev:
                if k == "effect" and any(str(d).startswith(i) for i in IMPURE):
                    R.findings.append({"key": "%s at %s" % (d, w), "call": show(c), "got": "reads or changes process state: %s at %s"
                                       % (d, w), "want": "a result that depends on the arguments only"})
                    break
                trig.setdefault(w, []).append(c)
            if R.findings:
                break
        R.items = len(calls) - unknown
        if not R.findings and (trig or events or undecided):
            f = search(rp, trig, calls, min(t0 + budget, time.time() + 45))
            if f:
                R.findings.append(f)
        if R.findings:
            R.status, R.why = "violation", R.findings[0]["got"]
        elif events or trig:
            R.status = "undecided"
            e = sorted(trig) or [e[2] for e in events]
            R.why = "state that outlives the call is touched at %s; no call was found to notice" % (e[0],)
        elif undecided:
            R.status, R.why = "undecided", undecided
        elif unknown == len(calls):
            R.status, R.why = "undecided", "no call could be replayed"
        R.wall = time.time() - t0
        return R
    return thunk


def pair_job(repo, name, firsts, probes, nested, row):
    """Pairs of fixed calls, the first from firsts."""
    def thunk(budget):
        t0 = time.time()
        R = Result(name)
        R.findings = []
        rp = Replay(repo)
        trig = {}
        known = 0
        for c in firsts:
            st, x, ev = rp.alone(c)
            known += st is not None
            for k, d, w in ev:
                if k == "effect" and any(str(d).startswith(i) for i in IMPURE):
                    R.findings.append({"key": "%s at %s" % (d, w), "call": show(c), "got": "reads or changes process state: %s at %s"
                                       % (d, w), "want": "a result that depends on the arguments only"})
                    break
                trig.setdefault(w, []).append(c)
        R.items = known * (len(probes) if trig else 1)
        if trig and not R.findings:
            f = search(rp, trig, probes, t0 + budget, nested, row)
            if f:
                R.findings.append(f)
        if R.findings:
            R.status, R.why = "violation", R.findings[0]["got"]
        elif trig:
            R.status = "undecided"
            R.why = "state that outlives the call is touched at %s; no call was found to notice" % (sorted(trig)[0],)
        elif not known:
            R.status, R.why = "undecided", "no call could be replayed"
        R.wall = time.time() - t0
        return R
    return thunk


def search(rp, trig, calls, stop, nested=True, row=True):
    """A pair of calls one of which changes the result of the other."""
    probes = [c for c in calls if rp.alone(c)[0] is not None]
    first = []
    for w in sorted(trig, key=repr):
        for c in trig[w][:6]:
            if c not in first:
                first.append(c)

    def differ(calls_, b, x):
        want = rp.alone(b)[1]
        if x is not None and want is not None and x != want:
            return {"key": "; ".join(show(c) for c in calls_) + "; " + show(b), "calls": [show(c) for c in calls_] + [show(b)],
                    "call": show(b), "got": "%s gives %s after %s" % (show(b), x, "; ".join(show(c) for c in calls_)),
                    "want": want, "where": str(sorted(trig, key=repr)[:3])}
        return None
    for a in first:
        st, x, ev = rp.alone(a)
        if st is None:
            continue
        for b in [a] + probes + first:
            if time.time() > stop:
                return None
            q, y = rp.after(st, b)
            f = differ([a], b, y)
            if f:
                return f
    # all of them in a row, then each again
    st = rp.fresh()
    done = []
    for c in (first + first[::-1] + probes) if row else ():
        if time.time() > stop:
            return None
        q, y = rp.after(st, c)
        f = differ(done, c, y)
        if f:
            return f
        if q is not None:
            st, done = q, done + [c]
    # one inside the other; from a fresh start and after a first call
    for warm in (False, True) if nested else ():
        for a in first[:6]:
            rp.start = rp.alone(a)[0] if warm else None
            nw = len(rp.alone(a)[2])
            pts = [("w", k) for k in sorted({1, 2, 3, nw // 2, nw - 1, nw} & set(range(1, nw + 1)))] + \
                  [("c", k) for k in (1, 2, 3, 5, 8, 12, 20, 40, 80, 160)]
            for b in probes[:8]:
                for kind, k in pts:
                    if time.time() > stop:
                        return None
                    r = rp.inside(a, b, kind, k)
                    if r is None:
                        break_ = kind == "c"
                        if break_:
                            break
                        continue
                    for c, o, x in ((a, b, r[0]), (b, a, r[1])):
                        want = rp.alone(c)[1]
                        if x not in (None, "?") and want is not None and x != want:
                            return {"key": "%s || %s" % (show(a), show(b)), "calls": [show(a), show(b)], "call": show(c),
                                    "got": "%s gives %s when %s runs at the same time" % (show(c), x, show(o)), "want": want,
                                    "where": "%s runs whole at %s %d of %s" % (show(b), "write" if kind == "w" else "call", k,
                                                                                show(a))}
    rp.start = None
    return None
