"""Obligations: an abstract input, the public call to analyse, what its result must be; alarms and their refinement."""
import random
import time

from .vals import *
from .state import *
from . import loops
from .interp import Interp, AnchorLost
from .lang import strip_marks

MAXALARMS = 12


class Spec:
    """One obligation."""

    def __init__(self, name, words, pieces, start, finals, fn, args, judge, oracle, exc_ok=None, module=None,
                 note="", text_arg=0):
        self.name, self.W, self.pieces, self.start, self.finals = name, words, tuple(pieces), start, set(finals)
        self.fn, self.args, self.judge, self.oracle = fn, args, judge, oracle
        self.exc_ok = exc_ok or (lambda e: False)
        self.module, self.note = module, note
        self.unique = frozenset()
        self.fine = False       # small input: keep the contents of several lists apart
        self.coarse = False


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.why = ""
        self.witness = None
        self.alarms = 0
        self.exits = 0
        self.stats = {}
        self.wall = 0.0
        self.refined = 0
        self.events = []


# ------------------------------------------------------------------ concrete paths of the input grammar
class Path:
    """A path of the input graph with one word chosen for each edge."""

    def __init__(self, W, edges):
        self.W, self.edges = W, edges           # [(uni, word index)]

    def text(self):
        return "".join(u.words[i] for u, i in self.edges)

    def items(self):
        """[(kind, text, ws_before)] with each number phrase one item: kind 'num' carries its value."""
        out, ws, seg = [], False, None
        canon = self.W.canonpos
        pend = []                       # neutral tokens since the last number word

        def flush():
            nonlocal seg
            if seg is not None:
                out.append(["num", seg["T"] + seg["M"] + seg["G"], seg["ws"]])
                seg = None
        for u, i in self.edges:
            w = u.words[i]
            if u.kind == "ws":
                pend.append(("ws", w))
                continue
            if u.act is None and not u.brk:
                pend.append((u.kind, w))
                continue
            cont = seg is not None and u.act is not None and not u.newseg and canon(seg["end"]) == canon(u.src)
            if not cont:
                flush()
                ws = False
                for k, x in pend:
                    if k == "ws":
                        ws = True
                    else:
                        out.append([k, x, ws])
                        ws = False
                if u.act is not None:
                    seg = {"T": 0, "M": 0, "G": 0, "ws": ws, "end": u.dst}
                else:
                    out.append([u.kind, w, ws])
            pend = []
            if u.act is not None:
                act = dict(u.act)
                new = {}
                for R in ("T", "M", "G"):
                    e = act.get(R, ((R, 1),))
                    new[R] = sum(c * (u.vals[i] if s == "v" else 1 if s == ONE else seg[s]) for s, c in e)
                seg.update(new)
                seg["end"] = u.dst
        flush()
        ws = False
        for k, x in pend:
            if k == "ws":
                ws = True
            else:
                out.append([k, x, ws])
                ws = False
        return out


def out_edges(pieces):
    """Adjacency of the frozen input graph: (graph, a, b) of the single P piece."""
    p = [x for x in pieces if x[0] == "P"]
    return p[0][1], p[0][2], p[0][3]


def bfs(g, a, b):
    """Shortest edge list from a to b."""
    if a == b:
        return []
    prev = {a: None}
    todo = [a]
    for n in todo:
        for lab, m in g.out[n]:
            if m not in prev:
                prev[m] = (n, lab)
                if m == b:
                    out = []
                    while prev[m] is not None:
                        n2, l2 = prev[m]
                        out.append((n2, l2, m))
                        m = n2
                    return out[::-1]
                todo.append(m)
    return None


def trail_list(t):
    out = []
    while t is not None:
        t, ctx, u, m = t
        out.append((ctx, u, m))
    out.reverse()
    return out


class Refiner:
    """Turns an alarm into a concrete text and asks the analyser again about that text alone."""

    def __init__(self, spec, repo, seed):
        self.spec, self.repo, self.seed = spec, repo, seed
        self.ip = None
        self.tried = set()
        self.g = None
        ps = [x for x in spec.pieces if x[0] == "P"]
        if ps:
            self.g, self.a, self.b = ps[0][1:]
            self.byuni = {}
            for e in self.g.edges:
                u = e[1].insts[0][0]
                self.byuni.setdefault(u, []).append(e)

    def from_unis(self, seq):
        """A full path that runs through the given universes in order: [(uni, mask)]."""
        cur, path, ok = self.a, [], 0
        for u, m in seq:
            best = None
            for e in self.byuni.get(u, ()):
                p = [] if e[0] == cur else bfs(self.g, cur, e[0])
                if p is not None and (best is None or len(p) < len(best[0])) and self.g.reaches(self.b) \
                        and e[2] in self.g.reaches(self.b):
                    best = (p, e)
            if best is None:
                continue
            path += [(x[1].insts[0][0], x[1].insts[0][1]) for x in best[0]]
            path.append((u, m))
            cur = best[1][2]
            ok += 1
        tail = bfs(self.g, cur, self.b)
        if tail is None:
            return None
        path += [(x[1].insts[0][0], x[1].insts[0][1]) for x in tail]
        return path

    def witnesses(self, st, extra):
        """Candidate mask paths for an alarm state."""
        if self.g is None:
            return
        if extra is not None:
            p = self.from_unis(extra)
            if p:
                yield p
        tr = trail_list(st.trail) if st is not None else []
        # passes over the input: maximal runs of one context moving forward
        runs, cur = [], []
        for ctx, u, m in tr:
            if u not in self.byuni:
                continue
            if cur and (cur[-1][0] != ctx or not self.after(cur[-1][1], u)):
                runs.append(cur)
                cur = []
            cur.append((ctx, u, m))
        if cur:
            runs.append(cur)
        runs.sort(key=len, reverse=True)
        for r in runs[:3]:
            p = self.from_unis([(u, m) for _, u, m in r])
            if p:
                yield p

    def after(self, u, v):
        return any(e2[0] in self.g.forward(e1[2]) for e1 in self.byuni[u][:2] for e2 in self.byuni[v][:2])

    def cover(self):
        """Shortest paths through every edge."""
        if self.g is None:
            yield []
            return
        done = set()
        for e in sorted(self.g.edges, key=lambda e: (e[0], e[2], e[1].insts[0][0].name)):
            if e in done:
                continue
            p, q = bfs(self.g, self.a, e[0]), bfs(self.g, e[2], self.b)
            if p is None or q is None:
                continue
            full = p + [e] + q
            done.update(full)
            yield [(x[1].insts[0][0], x[1].insts[0][1]) for x in full]

    def word_cover(self):
        """Every word of every edge, on a shortest path through it, the other words at random."""
        if self.g is None:
            return
        rnd = random.Random(self.seed + 5)
        todo = []
        live = self.g.reaches(self.b)
        seen = set()
        for e in sorted(self.g.edges, key=lambda e: (e[0], e[2], e[1].insts[0][0].name)):
            u, m = e[1].insts[0][0], e[1].insts[0][1]
            ws = [i for i in bits(m)]
            for i in ws:
                # (the first time a word comes up, then its other places)
                k = u.words[i]
                todo.append((k in seen or len(ws) > 60 and rnd.random() < .5, rnd.random(), e, i))
                seen.add(k)
        todo.sort(key=lambda t: t[:2])
        for _, _, e, i in todo:
            p, q = bfs(self.g, self.a, e[0]), bfs(self.g, e[2], self.b)
            if p is None or q is None:
                continue
            # an ending that is no blank, where there is one
            if not q and e[1].insts[0][0].kind == "ws":
                nx = [(l, m) for l, m in self.g.out[e[2]] if m in live and l.insts[0][0].kind != "ws"]
                if nx:
                    l, m = rnd.choice(nx)
                    q = [(e[2], l, m)] + (bfs(self.g, m, self.b) or [])
            if not p and e[1].insts[0][0].kind == "ws":
                for l0, m0 in self.g.out[self.a]:
                    r = bfs(self.g, m0, e[0]) if l0.insts[0][0].kind != "ws" else None
                    if r is not None and len(r) < 4:
                        p = [(self.a, l0, m0)] + r
                        break
            path = []
            for x in p:
                path.append((x[1].insts[0][0], rnd.choice(list(bits(x[1].insts[0][1])))))
            path.append((e[1].insts[0][0], i))
            for x in q:
                path.append((x[1].insts[0][0], rnd.choice(list(bits(x[1].insts[0][1])))))
            yield Path(self.spec.W, path)

    def walks(self, n, length=None):
        """Random paths through the graph; of at least some length when it is given."""
        if self.g is None:
            return
        rnd = random.Random(self.seed + 17 + (length or 0))
        live = self.g.reaches(self.b)
        loopy = set()
        if length:
            # places on a loop, and those that lead to one
            on = {x for x in live if any(y in live and (y == x or x in self.g.forward(y)) for _, y in self.g.out[x])}
            loopy = {x for x in live if on & set(self.g.forward(x)) or x in on}
        for _ in range(n):
            cur, p = self.a, []
            stop = length or rnd.randint(1, 7)
            while len(p) < stop or cur != self.b:
                es = [(l, m) for l, m in self.g.out[cur] if m in live]
                if not es or len(p) >= 24 + stop:
                    break
                if length and len(p) < stop:
                    # keep going where the graph has a loop
                    es = [(l, m) for l, m in es if m in loopy] or es
                if len(p) >= stop:
                    p += [(l, m) for _, l, m in bfs(self.g, cur, self.b)]
                    cur = self.b
                    break
                # (the kinds of edges matter more than how many there are)
                ks = {}
                for l, m in es:
                    ks.setdefault(l.insts[0][0].kind, []).append((l, m))
                l, m = rnd.choice(ks[rnd.choice(sorted(ks))])
                p.append((l, m))
                cur = m
            if cur == self.b:
                yield [(l.insts[0][0], l.insts[0][1]) for l, _ in p]

    def choices(self, masks, n):
        """Word choices for a mask path."""
        rnd = random.Random(self.seed)
        seen = set()
        for k in range(n):
            ch = []
            for u, m in masks:
                bs = list(bits(m))
                ch.append(bs[0] if k == 0 else bs[-1] if k == 1 else rnd.choice(bs))
            if tuple(ch) not in seen:
                seen.add(tuple(ch))
                yield Path(self.spec.W, [(u, i) for (u, _), i in zip(masks, ch)])

    def decide(self, path):
        """None when the analyser's result for this text is right or unknown, else a description of the failure."""
        text = path.text()
        if text in self.tried:
            return None
        self.tried.add(text)
        sp = self.spec
        try:
            if self.ip is None:
                self.ip = Interp(self.repo)
                self.ip.load_package()
            ip = self.ip
            ip.deadline = time.time() + 20
            ip.exc = []
            ip.events = []
            st = ip.fresh()
            args = [K(text)] + [a for a in sp.args]
            outs = ip.call(st, ip.api(sp.fn, sp.module), args, {})
        except (Imprecise, RecursionError, KeyError):
            return None
        if ip.exc:
            if outs or len(ip.exc) != 1:
                return None
            e = ip.exc[0][1]
            if sp.exc_ok(e):
                return None
            return {"text": text, "got": "raises %s" % e.cls, "want": sp.oracle(path)[1], "where": str(e.where)}
        vals = []
        for q, v in outs:
            ok, c = q.const(v)
            if not ok:
                return None
            if not any(type(c) is type(x) and c == x for x in vals):
                vals.append(c)
        if len(vals) != 1:
            return None
        pred, want = sp.oracle(path)
        if pred(vals[0]):
            return None
        return {"text": text, "got": repr(vals[0]), "want": want}


def run(spec, repo, seed=1, budget=400, handlers=None):
    """Analyse one obligation."""
    R = Result(spec.name)
    t0 = time.time()
    alarms = []
    try:
        ip = Interp(repo)
        ip.load_package()
        ip.canonpos = spec.W.canonpos
        loops.WHOLE.clear()
        for x, y in spec.W.phrases:
            loops.WHOLE.add((spec.W.canonpos(x), spec.W.canonpos(y)))
        loops.CANON[0] = spec.W.canonpos
        ip.unique = spec.unique
        ip.fine = spec.fine
        ip.coarse = spec.coarse
        if handlers:
            ip.handlers.update(handlers)
        ip.deadline = t0 + budget
        st = ip.fresh()
        from .strs import mkS
        text = mkS(st, spec.pieces)
        outs = ip.call(st, ip.api(spec.fn, spec.module), [text] + list(spec.args), {})
        R.exits = len(outs) + len(ip.exc)
        R.events = [(k, str(d), w) for k, d, w, _ in ip.events]
        for q, e in ip.exc:
            if not spec.exc_ok(e):
                alarms.append((q, None, "may raise %s at %s" % (e.cls, e.where)))
        for q, v in outs:
            r = spec.judge(ip, q, v)
            if r is not None:
                why, extra = r if isinstance(r, tuple) else (r, None)
                alarms.append((q, extra, why))
        R.stats = {"loops": ip.stats["loops"], "loop_states": ip.stats["heads"], "statements": ip.stats["steps"],
                   "functions": sorted(ip.stats["functions"])}
        if R.exits == 0:
            R.status, R.why = "undecided", "no path returns"
    except AnchorLost:
        raise
    except (Imprecise, RecursionError) as e:
        R.status, R.why = "undecided", "%s" % (e,)
        if "ip" in locals():
            R.why += " near %s" % (ip.line,)
            R.stats = {"loops": ip.stats["loops"], "loop_states": ip.stats["heads"], "statements": ip.stats["steps"],
                       "functions": sorted(ip.stats["functions"])}
    except Exception as e:                       # a gap of the analyser, never a verdict
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        R.status, R.why = "undecided", "analyser: %s: %s (%s:%d)" % (type(e).__name__, e, tb.filename, tb.lineno)
        if "ip" in locals():
            R.why += " near %s" % (ip.line,)
    R.alarms = len(alarms)
    if alarms:
        R.status = "undecided"
        R.why = alarms[0][2]
    if R.status == "undecided":
        rf = Refiner(spec, repo, seed)
        stop = time.time() + 240
        n = 0
        for q, extra, why in alarms[:MAXALARMS]:
            for masks in rf.witnesses(q, extra):
                for path in rf.choices(masks, 4):
                    n += 1
                    f = rf.decide(path)
                    if f:
                        f["rule"] = why
                        R.status, R.witness, R.why = "violation", f, why
                        break
                if R.witness or time.time() > stop:
                    break
            if R.witness or time.time() > stop:
                break
        if not R.witness:
            for masks in rf.cover():
                for path in rf.choices(masks, 2):
                    n += 1
                    f = rf.decide(path)
                    if f:
                        f["rule"] = R.why
                        R.status, R.witness = "violation", f
                        break
                if R.witness or time.time() > stop:
                    break
        if not R.witness:
            end = min(stop, time.time() + (30 if alarms else 12))
            for path in rf.word_cover():
                n += 1
                f = rf.decide(path)
                if f:
                    f["rule"] = R.why
                    R.status, R.witness = "violation", f
                    break
                if time.time() > end:
                    break
        if not R.witness:
            stop = min(stop, time.time() + (20 if alarms else 12))
            for masks in rf.walks(300):
                for path in rf.choices(masks, 3):
                    n += 1
                    f = rf.decide(path)
                    if f:
                        f["rule"] = R.why
                        R.status, R.witness = "violation", f
                        break
                if R.witness or time.time() > stop:
                    break
        if not R.witness:
            # lengths the program singles out
            from .texts import harvest_ints
            end = time.time() + 45
            for c in reversed(harvest_ints(repo)):
                for masks in rf.walks(3, 2 * c + 6):
                    for path in rf.choices(masks, 1):
                        n += 1
                        f = rf.decide(path)
                        if f:
                            f["rule"] = R.why
                            R.status, R.witness = "violation", f
                    if R.witness or time.time() > end:
                        break
                if R.witness or time.time() > end:
                    break
        R.refined = n
    R.wall = time.time() - t0
    return R


# ------------------------------------------------------------------ judging integers
def int_is(ip, q, v, sym):
    """None when v is the integer denoted by sym, else why it may not be."""
    ok, c = q.const(v)
    if ok:
        if type(c) is not int:
            return "returns %r instead of a number" % (c,)
        if q.rng.get(sym) == (c, c):
            return None
        return "returns the constant %r" % (c,)
    if type(v) is Rel:
        from .loops import rel_to_lin
        u, m = q.ins[v.inst]
        if any(type(v.tab[w]) is not int for w in bits(m)):
            return "returns something that is no number"
        return "returns a value tied to one word"
    if type(v) is not N:
        return "returns %s" % type(v).__name__
    ln, lo, hi = q.nums[v.id]
    ln = q.simp(ln)
    if ln is not None and len(ln) == 1 and ln[0][0] == sym and ln[0][1] == 1:
        return None
    if ln is not None and lin_is_const(ln) and q.rng.get(sym) == (lo, hi) and lo == hi:
        return None
    return "returns a value not equal to that of the phrase (%s)" % (ln,)


def num_spec(name, W, pieces, a, b, fn, args, **kw):
    """The call must return exactly the value of the phrase from a to b."""
    sym = ("V", W.canonpos(a), W.canonpos(b))

    def judge(ip, q, v):
        return int_is(ip, q, v, sym)

    def oracle(path):
        its = path.items()
        val = its[0][1]
        assert len(its) == 1 and its[0][0] == "num", its
        return (lambda x: type(x) is int and x == val), repr(val)
    sp = Spec(name, W, pieces, a, [b], fn, args, judge, oracle, **kw)
    sp.unique = frozenset([sym])
    return sp


def none_spec(name, W, pieces, fn, args, **kw):
    """The call must return None."""
    def judge(ip, q, v):
        ok, c = q.const(v)
        if ok and c is None:
            return None
        return "may return something else than None"

    def oracle(path):
        return (lambda x: x is None), "None"
    return Spec(name, W, pieces, None, [], fn, args, judge, oracle, **kw)
