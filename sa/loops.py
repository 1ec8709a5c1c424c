"""Loop fixpoints: canonical forms of states, folding of growing lists into graphs, joins and widening."""
import heapq

from .vals import *
from .state import *

REGS = ("T", "M", "G")


# ------------------------------------------------------------------ labels
WHOLE = set()                   # (start, end) of the whole numbers of the input grammar
CANON = [lambda p: p]


def whole_word(st, ln):
    """The phrase symbol when ln is the value of a word that is a whole number."""
    if len(ln) == 1 and ln[0][0][0] == "v" and ln[0][1] == 1 and ln[0][0][1] in st.ins:
        u, m = st.ins[ln[0][0][1]]
        x = (CANON[0](u.src), CANON[0](u.dst))
        if x in WHOLE and u.act is not None and \
                all(sum(k * (u.vals[w] if r == "v" else 1 if r == ONE else 0) for _, e in u.act for r, k in e)
                    == u.vals[w] for w in bits(m)):
            return ("V",) + x
    return None


def word_range(ip, st, u, m):
    """A word that is a whole phrase of its own is about to be forgotten: keep what is known of its value."""
    sym = ("V", ip.canonpos(u.src), ip.canonpos(u.dst))
    if sym in ip.unique:
        vs = [sum(k * (u.vals[w] if r == "v" else 1 if r == ONE else 0) for _, e in u.act for r, k in e)
              for w in bits(m)]
        if vs:
            set_vrange(ip, st, sym, (min(vs), max(vs)))


def known_value(st, s):
    """The phrase whose value, a known constant in this state, the text s spells."""
    if not (s.isascii() and s.isdecimal()) or s != "0" and s[0] == "0":
        return None
    c = int(s)
    vs = [x for x in st.rng if x[0] == "V"]
    for x in vs:
        if st.rng[x] == (c, c):
            return x
    for i, (u, m) in st.ins.items():
        if u.act is not None:
            x = (CANON[0](u.src), CANON[0](u.dst))
            for v in vs + ([("V",) + x] if x in WHOLE else []):
                if v[1:] == x and all(sum(k * (u.vals[w] if r == "v" else 1 if r == ONE else 0)
                                          for _, e in u.act for r, k in e) == c for w in bits(m)):
                    return v
    return None


def make_lab(st, v):
    """The value v as an edge label, independent of the state."""
    im, nm = {}, {}
    if type(v) is K and isinstance(v.v, str) and v.v.isdecimal():
        x = known_value(st, v.v)
        if x is not None:
            return Lab(IS(0), [], [(((x, 1),), None, None)])
    insts, nums = [], []

    def fi(i):
        if i not in im:
            im[i] = len(insts)
            insts.append(st.ins[i])
        return im[i]

    def fn(n):
        if n not in nm:
            nm[n] = len(nums)
            ln, lo, hi = st.nums[n]
            if ln is not None:
                ln = st.simp(ln)
                if any(s[0] not in ("V", "1") for s, _ in ln):
                    sym = whole_word(st, ln)
                    ln = ((sym, 1),) if sym else None
            if ln is not None and len(ln) == 1 and ln[0][0][0] == "V":
                lo = hi = None          # the value of a phrase: its range belongs to the symbol
            nums.append((ln, lo, hi))
        return nm[n]

    def fr(r):
        raise Imprecise("reference inside a list of an abstract loop")
    return Lab(map_val(v, fi, fn, fr), insts, nums)


def has_ref(v):
    t = type(v)
    if t in (Ref, Fn, Bound, Part):
        return True
    if t is Tup:
        return any(has_ref(x) for x in v.items)
    return False


def inst_lab(st, lab):
    """Instantiate a label: (value, ids of its instances)."""
    ids = [st.inst(u, m) for u, m in lab.insts]
    nids = []
    for ln, lo, hi in lab.nums:
        n = st.new()
        st.nums[n] = (ln, lo, hi)
        nids.append(n)
    if not ids and not nids:
        return lab.val, ids
    return map_val(lab.val, lambda i: ids[i], lambda n: nids[n], lambda r: r), ids


def expand(ip, pieces):
    """First elements of a piece sequence: list of (label or E value, rest), and whether it may be empty."""
    out, todo, empty = [], [tuple(pieces)], False
    while todo:
        ps = todo.pop()
        if not ps:
            empty = True
            continue
        p = ps[0]
        if p[0] == "E":
            out.append((p, ps[1:]))
            continue
        _, g, a, b = p
        if g.dyn is not None:
            g.dyn.note_read(g, a, b)
        live = g.reaches(b)
        if a == b:
            todo.append(ps[1:])
        for lab, m in g.out[a]:
            if m in live:
                rest = ps[1:]
                if m != b:
                    rest = (("P", g, m, b),) + rest
                elif any(x in live for _, x in g.out[b]):
                    rest = (("P", g, b, b),) + rest
                out.append((("L", lab), rest))
    return out, empty


def expand_back(ip, pieces):
    """Last elements of a piece sequence: list of (E or L, rest before it), and whether it may be empty."""
    out, todo, empty = [], [tuple(pieces)], False
    while todo:
        ps = todo.pop()
        if not ps:
            empty = True
            continue
        p = ps[-1]
        if p[0] == "E":
            out.append((p, ps[:-1]))
            continue
        _, g, a, b = p
        if g.dyn is not None:
            g.dyn.note_read(g, a, b)
        live = g.forward(a)
        if a == b:
            todo.append(ps[:-1])
        for lab, m in g.inn[b]:
            if m in live:
                rest = ps[:-1]
                if m != a:
                    rest = rest + (("P", g, a, m),)
                elif any(x in live and m in g.forward(x) for _, x in g.out[a]) and g_cyc(g, a):
                    rest = rest + (("P", g, a, a),)
                out.append((("L", lab), rest))
    return out, empty


def g_cyc(g, a):
    return any(a in g.forward(x) for _, x in g.out[a])


def take(ip, st, items):
    """Instantiate the alternatives of expand(): list of (state, value, rest, first instance or None)."""
    out = []
    for k, (it, rest) in enumerate(items):
        q = st.copy() if k < len(items) - 1 else st
        if it[0] == "E":
            out.append((q, it[1], rest, it[1].inst if isinstance(it[1], Rel) else None))
        else:
            v, ids = inst_lab(q, it[1])
            out.append((q, v, rest, ids[0] if ids else None))
    return out


# ------------------------------------------------------------------ reference registers
def rel_to_lin(st, v):
    """Linear form of a Rel of integers over the lexicon value of its instance, and its range; None if not affine."""
    u, m = st.ins[v.inst]
    ws = list(bits(m))
    ys = [v.tab[w] for w in ws]
    if any(type(y) is not int for y in ys):
        return None
    lo, hi = min(ys), max(ys)
    if lo == hi:
        return lin_const(lo), lo, hi
    if u.vals is None:
        return None
    xs = [u.vals[w] for w in ws]
    i, j = 0, next((j for j in range(1, len(xs)) if xs[j] != xs[0]), None)
    if j is None:
        return None
    a = Fraction(ys[j] - ys[i], xs[j] - xs[i])
    b = ys[i] - a * xs[i]
    if any(a * x + b != y for x, y in zip(xs, ys)):
        return None
    if a.denominator == 1:
        a = int(a)
    if isinstance(b, Fraction) and b.denominator == 1:
        b = int(b)
    return lin({("v", v.inst): a, ONE: b}), lo, hi


def is_int_rel(st, v):
    if type(v) is not Rel:
        return False
    u, m = st.ins[v.inst]
    return all(type(v.tab[w]) is int for w in bits(m))


def relints(ip, st, entry):
    """Turn integer Rels held in variables and attributes into abstract integers."""
    def f(v):
        if type(v) is Rel and is_int_rel(st, v):
            r = rel_to_lin(st, v)
            if r is not None:
                return st.num(*r)
        if type(v) is Tup and any(type(x) is Rel for x in v.items):
            return Tup(f(x) for x in v.items)
        return v
    for r, rec in list(st.heap.items()):
        if entry is not None and entry.get(r) is rec:
            continue
        if type(rec) is Frame:
            if any(type(v) in (Rel, Tup) for v in rec.vars.values()):
                d = {k: f(v) for k, v in rec.vars.items()}
                if any(d[k] is not rec.vars[k] for k in d):
                    st.heap[r] = Frame(d, rec.parent, rec.code, rec.mod)
        elif type(rec) is Obj:
            if any(type(v) in (Rel, Tup) for v in rec.attrs.values()):
                d = {k: f(v) for k, v in rec.attrs.items()}
                if any(d[k] is not rec.attrs[k] for k in d):
                    st.heap[r] = Obj(rec.cls, d)
        elif type(rec) is Dct and not rec.const:
            if any(type(v) in (Rel, Tup) for v in rec.d.values()):
                d = {k: f(v) for k, v in rec.d.items()}
                if any(d[k] is not rec.d[k] for k in d):
                    st.heap[r] = Dct(d, None, rec.kind, rec.default)


def eliminate(st, eqs, pivots):
    """Substitution that rewrites the symbols in `pivots` by the left sides of eqs: list of (new sym, lin)."""
    sub = {}
    for new, e in eqs:
        e = lin_subst(e, sub)
        cand = [s for s in pivots if s not in sub and any(t == s for t, _ in e)]
        if not cand:
            continue
        p = cand[0]
        c = dict(e)[p]
        rest = {s: -k for s, k in e if s != p}
        rest[new] = rest.get(new, 0) + 1
        d = {}
        for s, k in rest.items():
            x = Fraction(k) / Fraction(c)
            d[s] = int(x) if x.denominator == 1 else x
        ex = lin(d)
        for s in list(sub):
            sub[s] = lin_subst(sub[s], {p: ex})
        sub[p] = ex
    return sub


def apply_sub(st, sub, dead):
    """Rewrite every abstract integer; forms left with a dead symbol become unknown."""
    for n, (ln, lo, hi) in list(st.nums.items()):
        if ln is None:
            continue
        l0 = st.simp(ln) if dead else ln
        l2 = lin_subst(l0, sub) if sub else l0
        if any(s in dead for s, _ in l2):
            l2 = None
        if l2 is not ln:
            st.nums[n] = (l2, lo, hi)


def settle(ip, st):
    """Apply the reference meaning of the words consumed since the last loop head."""
    for ctx, inst in list(st.pend.items()):
        if inst is None:
            continue
        st.pend[ctx] = None
        if inst not in st.ins:
            continue
        u, m = st.ins[inst]
        st.trail = (st.trail, ctx, u, m)
        if ip.isneutral(u):
            continue
        g = st.gh.get(ctx)
        old = {R: ("r", ctx, R) for R in REGS}
        eqs = []
        src = ip.canonpos(u.src)
        if g is not None and (u.act is None or u.newseg or ip.canonpos(g[1]) != src):
            vs = ("V", g[0], ip.canonpos(g[1]))
            ln = st.simp(lin({old[R]: 1 for R in REGS}))
            set_vrange(ip, st, vs, st.lrange(ln))
            eqs.append((vs, ln))
            base = None
        elif g is None:
            base = None
        else:
            base = old
        if u.act is None:
            new = {R: () for R in REGS}
            ng = None
        else:
            new = {}
            act = dict(u.act)
            for R in REGS:
                e = act.get(R)
                if e is None:
                    e = ((R, 1),)
                d = {}
                for s, c in e:
                    if s == "v":
                        d[("v", inst)] = d.get(("v", inst), 0) + c
                    elif s == ONE:
                        d[ONE] = d.get(ONE, 0) + c
                    elif base is not None:
                        d[base[s]] = d.get(base[s], 0) + c
                new[R] = st.simp(lin(d))
            ng = (g[0] if base is not None else src, u.dst)
        ranges = {R: st.lrange(new[R]) for R in REGS}
        piv = [("v", inst)] + [old[R] for R in ("G", "M", "T")]
        for R in REGS:
            eqs.append((("q", ctx, R), new[R]))
        sub = eliminate(st, eqs, piv)
        apply_sub(st, sub, set(old.values()))
        ren = {("q", ctx, R): lin({old[R]: 1}) for R in REGS}
        apply_sub(st, ren, ())
        for R in REGS:
            st.rng[old[R]] = ranges[R]
        st.gh[ctx] = ng
        for n, (ln, lo, hi) in list(st.nums.items()):
            if ln is not None:
                st.nums[n] = (st.simp(ln), lo, hi)


def set_vrange(ip, st, sym, r):
    if sym not in ip.unique:
        return
    o = st.rng.get(sym)
    if o is not None:
        # one phrase, read again: both ranges hold
        lo = r[0] if o[0] is None else o[0] if r[0] is None else max(o[0], r[0])
        hi = r[1] if o[1] is None else o[1] if r[1] is None else min(o[1], r[1])
        r = (lo, hi)
    st.rng[sym] = r


def close_ctx(ip, st, ctx):
    """The traversal ctx is over: express what is left in terms of the value of the phrase it read."""
    g = st.gh.get(ctx)
    old = {R: ("r", ctx, R) for R in REGS}
    kept = {old[R]: ("x", ctx, R) for R in REGS}
    stale = set(kept.values())
    if any(ln is not None and any(s in stale for s, _ in ln) for ln, _, _ in st.nums.values()):
        apply_sub(st, {}, stale)
    for s in stale:
        st.rng.pop(s, None)
    if g is not None:
        vs = ("V", g[0], ip.canonpos(g[1]))
        ln = st.simp(lin({old[R]: 1 for R in REGS}))
        set_vrange(ip, st, vs, st.lrange(ln))
        sub = eliminate(st, [(vs, ln)], [old[R] for R in ("G", "M", "T")])
        apply_sub(st, sub, set())
        # parts of the phrase that are left over keep a name of their own
        left = {s for ln, _, _ in st.nums.values() if ln is not None for s, _ in ln if s in kept}
        if left:
            for s in left:
                st.rng[kept[s]] = st.rng.get(s, (None, None))
            apply_sub(st, {s: lin({kept[s]: 1}) for s in left}, set())
    else:
        apply_sub(st, {}, set(old.values()))
    st.gh.pop(ctx, None)
    st.pend.pop(ctx, None)
    for R in REGS:
        st.rng.pop(old[R], None)


# ------------------------------------------------------------------ canonical forms
class Canon:
    """Canonical form of a state relative to a watermark: ids at or above it are renamed in visiting order."""

    def __init__(self, ip, st, wm, li, entry=None):
        self.ip, self.st, self.wm, self.li = ip, st, wm, li
        self.entry = entry if entry is not None else (li.entry.heap if li is not None else {})
        self.key = []
        self.ints = []
        self.slots = []
        self.rr, self.ri, self.rn = {}, {}, {}
        self.queue = []
        self.nxt = wm
        self.newheap = {}
        self.folds = []
        self.where = []
        self.phase = []
        self.spots = []

    def fid(self):
        n = self.nxt
        self.nxt += 1
        return n

    def fi(self, i):
        if i < self.wm:
            return i
        j = self.ri.get(i)
        if j is None:
            j = self.ri[i] = self.fid()
            self.key.append(self.st.ins[i][0])
        return j

    def fn(self, n):
        if n < self.wm:
            return n
        j = self.rn.get(n)
        if j is None:
            j = self.rn[n] = self.fid()
        return j

    def fr(self, r):
        if r < self.wm:
            return r
        if r in self.ip.base:
            return r
        j = self.rr.get(r)
        if j is None:
            j = self.rr[r] = self.fid()
            self.queue.append(r)
        return j

    def val(self, v, slot):
        """Visit a value: its renamed form; the key gets a description."""
        t = type(v)
        key = self.key
        if t is K:
            if type(v.v) is int:
                key.append("I")
                self.ints.append(("K", v.v))
                self.slots.append(slot)
            else:
                key.append(v)
            return v
        if t is N:
            n = self.fn(v.id)
            key.append("I")
            self.ints.append(("N", n, v.id))
            self.slots.append(slot)
            return v if n == v.id else N(n)
        if t is IS:
            n = self.fn(v.id)
            key.append("IS")
            self.ints.append(("S", n, v.id))
            self.slots.append(None)
            return v if n == v.id else IS(n)
        if t is Rel:
            i = self.fi(v.inst)
            key.append(("R", i, id(v.tab)))
            return v if i == v.inst else Rel(i, v.tab)
        if t is Ref:
            r = self.fr(v.id)
            key.append(("@", r))
            return v if r == v.id else Ref(r)
        if t is Tup:
            key.append(("T", len(v.items)))
            it = [self.val(x, None) for x in v.items]
            return Tup(it) if any(a is not b for a, b in zip(it, v.items)) else v
        if t is S:
            if self.li is not None and slot is not None and slot[1] == "var" and self.fold_S(v, slot):
                return v                    # replaced later
            key.append(("S", len(v.pieces)))
            ps = self.pieces(v.pieces)
            return v if ps is v.pieces else S(ps)
        if t is Fn:
            key.append(("F", id(v.code), v.cached))
            r = self.fr(v.frame)
            key.append(r)
            ds = tuple(self.val(x, None) for x in v.defaults)
            kd = tuple((n, self.val(x, None)) for n, x in v.kwdefaults)
            return Fn(v.code, r, ds, kd, v.cached)
        if t is Bound:
            key.append("B")
            return Bound(self.val(v.fn, None), self.val(v.self_, None))
        if t is Meth:
            key.append(("M", v.name))
            return Meth(self.val(v.recv, None), v.name)
        if t is Part:
            key.append(("P", len(v.args), tuple(k for k, _ in v.kw)))
            return Part(self.val(v.fn, None), [self.val(x, None) for x in v.args],
                        [(k, self.val(x, None)) for k, x in v.kw])
        if t is Pos:
            key.append(("Pos", v.off, len(v.src or ()), len(v.before), len(v.after)))
            s = self.pieces(v.src) if v.src is not None else None
            return Pos(s, tuple(self.pieces(v.before)), tuple(self.pieces(v.after)), v.off)
        key.append(v)
        return v

    def pieces(self, ps):
        out, ch = [], False
        for p in ps:
            if p[0] == "E":
                self.key.append("E")
                x = self.val(p[1], None)
                if x is not p[1]:
                    ch = True
                    p = ("E", x)
            else:
                self.key.append(("P", p[1].id, p[2], p[3]))
            out.append(p)
        return tuple(out) if ch else ps

    # -- folding
    def mine(self, p):
        return p[0] == "P" and p[1].dyn is self.li

    def fold_plan(self, ps, eps):
        """How a list changed since the loop began: None to keep it, or (base, front, core, back)."""
        core = [i for i, p in enumerate(ps) if self.mine(p)]
        if len(core) > 1:
            # one part may keep growing; the others are copied into it
            li = self.li
            core = [i for i in core
                    if not any(li.depends(ps[j][1], ps[i][1]) for j in core if j != i)][:1]
            if not core:
                if eps and len(ps) > len(eps) and ps[:len(eps)] == eps:
                    return (eps, (), None, ps[len(eps):], ())
                return ((), (), None, ps, ())
        if core:
            i = core[0]
            base_f, base_b = 0, 0
            front, back = ps[:i], ps[i + 1:]
            # an entry prefix stays outside
            if eps and ps[:len(eps)] == eps and len(eps) <= i:
                front = ps[len(eps):i]
                base = eps
                if front:
                    raise Imprecise("list grows in the middle")
                if not back:
                    return None
                return (base, (), ps[i], back, ())
            if eps and ps[len(ps) - len(eps):] == eps and len(eps) <= len(ps) - i - 1:
                back = ps[i + 1:len(ps) - len(eps)]
                if not front and not back:
                    return None
                return ((), front, ps[i], back, eps)
            if not front and not back:
                return None
            return ((), front, ps[i], back, ())
        if eps is not None and ps == eps:
            return None
        if not ps:
            return None
        if eps and len(ps) > len(eps) and ps[:len(eps)] == eps:
            return (eps, (), None, ps[len(eps):], ())
        if eps and len(ps) > len(eps) and ps[len(ps) - len(eps):] == eps:
            return ((), ps[:len(ps) - len(eps)], None, (), eps)
        if all(p[0] == "P" for p in ps):
            return None
        if all(p[0] == "E" and not self.tokenish(p[1]) for p in ps) and len(ps) <= 4:
            if eps is not None and len(eps) == len(ps):
                return None
        if any(p[0] == "E" and has_ref(p[1]) for p in ps):
            return None
        return ((), (), None, ps, ())

    def tokenish(self, v):
        return type(v) in (Rel, S, IS) or (type(v) is K and type(v.v) is str) or \
            (type(v) is Tup and any(self.tokenish(x) for x in v.items))

    def fold_S(self, v, slot):
        ent = self.entry.get(slot[0])
        ev = None
        if isinstance(ent, Frame):
            ev = ent.vars.get(slot[2])
        eps = ev.pieces if type(ev) is S else (("E", ev),) if type(ev) in (Rel, K, IS) and ev != EMPTY else ()
        ps = v.pieces
        if len(ps) < 2 and not any(self.mine(p) for p in ps):
            return False
        if ps == eps:
            return False
        plan = self.fold_plan(ps, eps)
        if plan is None:
            return False
        self.key.append(("fold", plan[2] is not None))
        self.folds.append((("s",) + slot, plan, v))
        return True

    def rec(self, r, rec, nr):
        """Visit a record; its renamed form."""
        t = type(rec)
        key = self.key
        if t is Lst:
            key.append(("L", rec.kind))
            if self.li is not None and rec.kind == "list":
                e = self.entry.get(r)
                plan = self.fold_plan(rec.pieces, e.pieces if type(e) is Lst else None)
                if plan is not None:
                    key.append(("fold", plan[2] is not None))
                    self.folds.append((("l", nr), plan, None))
                    return rec
            elif self.li is not None and rec.kind == "iter" and r >= self.wm and self.li.hidden(r):
                pass
            elif self.li is not None and rec.kind == "iter":
                e = self.entry.get(r)
                if e is not None and len(rec.pieces) > len(e.pieces) or any(self.mine(p) for p in rec.pieces):
                    plan = self.fold_plan(rec.pieces, e.pieces if type(e) is Lst else None)
                    if plan is not None:
                        key.append(("fold", plan[2] is not None))
                        self.folds.append((("l", nr), plan, None))
                        return rec
            k0 = len(key)
            key.append(len(rec.pieces))
            ps = self.pieces_l(rec.pieces, nr, r)
            if rec.kind == "iter":
                self.where.append(tuple(key[k0:]))
                self.phase.append(tuple((p[1].id, p[1].scc(p[2]) if p[1].dyn is None else None)
                                        for p in rec.pieces if p[0] == "P"))
            return rec if ps is rec.pieces else Lst(ps, rec.kind)
        if t is Dct:
            if rec.const:
                ints = [(k, v) for k, v in rec.d.items() if type(v.v) is int]
                if len(rec.d) > 12 or not ints:
                    key.append(("D", id(rec)) if self.ip.base.get(r) is rec or len(rec.d) > 12
                               else ("D", tuple(rec.d.items()), rec.kind))
                    return rec
            key.append(("D", tuple(rec.d), rec.kind))
            d = {k: self.val(v, (nr, "key", k)) for k, v in rec.d.items()}
            if rec.default is not None:
                self.val(rec.default, None)
            return Dct(d, None, rec.kind, rec.default) if any(d[k] is not rec.d[k] for k in d) else rec
        if t is Obj:
            key.append(("O", rec.cls, tuple(rec.attrs)))
            d = {k: self.val(v, (nr, "attr", k)) for k, v in rec.attrs.items()}
            return Obj(rec.cls, d) if any(d[k] is not rec.attrs[k] for k in d) else rec
        if t is Frame:
            names = sorted(rec.vars)
            key.append(("Fr", tuple(names), id(rec.code)))
            d = {k: self.val(rec.vars[k], (nr, "var", k)) for k in names}
            p = self.fr(rec.parent) if rec.parent is not None else None
            key.append(p)
            if p == rec.parent and all(d[k] is rec.vars[k] for k in d):
                return rec
            return Frame(d, p, rec.code, rec.mod)
        if t is SetR:
            key.append(("Set", rec.s, len(rec.weak)))
            w = tuple(self.val(x, None) for x in rec.weak)
            return SetR(rec.s, rec.frozen, w)
        if t is ClsR:
            key.append(("C", id(rec)))
            return rec
        raise Imprecise("record %s" % t.__name__)

    def pieces_l(self, ps, nr, r):
        out, ch = [], False
        for i, p in enumerate(ps):
            if p[0] == "E":
                self.key.append("E")
                x = self.val(p[1], (nr, "idx", i))
                if x is not p[1]:
                    ch = True
                    p = ("E", x)
            else:
                if p[1].dyn is not None:
                    self.spots.append((r, i))
                self.key.append(("P", p[1].id, p[2], p[3]))
            out.append(p)
        return tuple(out) if ch else ps

    def run(self, extra=None):
        """(key, canonical state, renamed extra value)."""
        st, wm = self.st, self.wm
        key = self.key
        ex = None
        if extra is not None:
            ex = self.val(extra, None)
        roots = []
        gone = ()
        for r in sorted(st.heap):
            if r < wm:
                rec = st.heap[r]
                if self.entry.get(r) is not rec:
                    roots.append(r)
        dead = [r for r in roots if r not in self.ip.base and self.mortal(st.heap[r])]
        if dead:
            live = self.reachable(extra)
            gone = {r for r in dead if r not in live}
            if gone:
                roots = [r for r in roots if r not in gone]
        for r in st.frames:
            if r >= wm:
                self.fr(r)
        for r in roots:
            key.append(r)
            self.newheap[r] = self.rec(r, st.heap[r], r)
        i = 0
        while i < len(self.queue):
            r = self.queue[i]
            i += 1
            self.newheap[self.rr[r]] = self.rec(r, st.heap[r], self.rr[r])
        key.append(tuple(self.rr.get(r, r) for r in st.frames))
        key.append(tuple(sorted(st.gh.items())) if st.gh else ())
        key.append(st.seen)
        coarse = tuple(key)
        if self.folds:
            extra_key = self.do_folds(coarse)
            coarse = coarse + extra_key
        q = St.__new__(St)
        q.heap = {r: rec for r, rec in st.heap.items() if r < wm and r not in gone}
        q.heap.update(self.newheap)
        q.ins = {i: x for i, x in st.ins.items() if i < wm}
        for i, j in self.ri.items():
            q.ins[j] = st.ins[i]
        im = self.ri
        if self.ip.unique:
            for i, (u, m) in st.ins.items():
                if i >= wm and i not in im and u.act is not None:
                    word_range(self.ip, st, u, m)
        q.nums = {}
        usedv = set()

        def flin(ln):
            if ln is None:
                return None
            ch = None
            for s, c in ln:
                if s[0] == "v" and s[1] >= wm:
                    if s[1] not in im:
                        return None
                    ch = True
                elif s[0] == "V":
                    usedv.add(s)
            if ch:
                return lin({(("v", im[s[1]]) if s[0] == "v" and s[1] >= wm else s): c for s, c in ln})
            return ln
        for n, x in st.nums.items():
            if n < wm:
                q.nums[n] = (flin(x[0]), x[1], x[2])
        for n, j in self.rn.items():
            x = st.nums[n]
            q.nums[j] = (flin(x[0]), x[1], x[2])
        q.rng = {s: r for s, r in st.rng.items() if s[0] != "V" or s in usedv or True}
        q.gh, q.pend = dict(st.gh), dict(st.pend)
        q.frames = tuple(self.rr.get(r, r) for r in st.frames)
        q.fl, q.trail, q.facts, q.seen = st.fl, st.trail, st.facts, st.seen
        q.nx = self.nxt
        ints = []
        for t in self.ints:
            if t[0] == "K":
                ints.append(t)
            else:
                ints.append((t[0], t[1], q.nums[t[1]][0]))
        self.state = q
        self.coarse = coarse
        self.intkey = tuple(ints)
        return (coarse, self.intkey), q, ex

    @staticmethod
    def mortal(rec):
        t = type(rec)
        return t is Dct or t is SetR or t is Obj or t is Lst and rec.kind != "iter"

    def reachable(self, extra):
        """Ids reachable from the variables of the active frames: a changed object nobody can name is forgotten."""
        st, base = self.st, self.ip.base
        seen = set()
        todo = [Ref(r) for r in st.frames] + [Ref(r) for r in st.seen]
        if extra is not None:
            todo.append(extra)
        for r, rec in st.heap.items():
            if r in base or type(rec) is Lst and rec.kind == "iter" or type(rec) is Frame and r >= self.wm:
                todo.append(Ref(r))
        while todo:
            v = todo.pop()
            t = type(v)
            if t is int:
                r = v
            elif t is Ref:
                r = v.id
            elif t is Fn:
                r = v.frame
                todo.extend(v.defaults)
                todo.extend(x for _, x in v.kwdefaults)
            elif t is Tup:
                todo.extend(v.items)
                continue
            elif t is Bound:
                todo += [v.fn, v.self_]
                continue
            elif t is Meth:
                todo.append(v.recv)
                continue
            elif t is Part:
                todo.append(v.fn)
                todo.extend(v.args)
                todo.extend(x for _, x in v.kw)
                continue
            else:
                continue
            if r in seen or r in base and r not in st.heap:
                continue
            seen.add(r)
            rec = st.heap.get(r)
            if rec is not None:
                todo.extend(refs_of(rec))
        return seen

    def coarser(self, coarse):
        """Where paths of a folded list may meet: equal positions of the iterators; else equal states but for lists."""
        if self.where:
            return tuple(self.where)
        dyn = {g.id for g in self.li.graphs.values()}
        if not dyn:
            return coarse
        return tuple("P" if type(k) is tuple and len(k) == 4 and k[0] == "P" and k[1] in dyn else k for k in coarse)

    def do_folds(self, coarse):
        li, st = self.li, self.st
        ckey = self.coarser(coarse)
        kid0 = li.keyid(ckey)
        extra = []
        ends = None
        for slot, plan, sv in self.folds:
            base, front, core, back, tail = plan
            skey = slot[:2] if slot[0] == "l" else slot
            g = li.graph((skey, len(base) and 1))
            kid = kid0
            if self.ip.fine:
                # where the other lists end tells the contents of this one apart
                if ends is None:
                    ends = [x[1][2] for x in self.folds if x[1][2] is not None]
                    for r, i in self.spots:
                        pc = st.heap[r].pieces[i]
                        if self.mine(pc):
                            ends.append(pc)
                if self.ip.fine == "phase":
                    over = [(pc[1].id, pc[1].phase.get(pc[3])) for pc in ends if pc[1] is not g]
                else:
                    over = [(pc[1].id, pc[3]) for pc in ends if pc[1].id < g.id]
                if over:
                    kid = li.keyid((ckey, tuple(sorted(over, key=repr))))
            if core is None:
                k = 0
                while any(p[0] == "P" and p[1].dyn is li and li.depends(p[1], g) for p in front + back):
                    k += 1
                    g = li.graph((skey, len(base) and 1, k))
                    if k > 8:
                        raise Imprecise("lists of one loop hold each other")
                a = b = g.node("s")
            else:
                _, g0, a, b = core
                if g0 is not g:
                    g = g0
            if back:
                nb = g.node(("b", kid))
                if self.where:
                    g.phase[nb] = tuple(self.phase)
                self.add_path(g, b, back, nb)
            else:
                nb = b
            if front:
                na = g.node(("f", kid))
                self.add_path(g, na, front, a)
            else:
                na = a
            ps = tuple(base) + (("P", g, na, nb),) + tuple(tail)
            extra.append((skey, g.id, na, nb))
            if slot[0] == "l":
                r = slot[1]
                self.newheap[r] = Lst(ps, self.newheap[r].kind)
                # base/tail values may hold ids below the watermark only
            else:
                r, _, name = slot[1:]
                fr = self.newheap[r]
                self.newheap[r] = Frame({**fr.vars, name: S(ps)}, fr.parent, fr.code, fr.mod)
        return tuple(extra)

    def add_path(self, g, a, ps, b):
        li, st = self.li, self.st
        items = []
        for p in ps:
            if p[0] == "E":
                items.append(("E", make_lab(st, p[1])))
            else:
                _, h, x, y = p
                if h.dyn is not None and h.dyn is not li:
                    h, x, y = freeze(h, x, y)
                elif h.dyn is li:
                    li.note_read(h, x, y)
                    li.depend(g, h)
                items.append(("P", h, x, y))
        keys = [("E", it[1]) if it[0] == "E" else ("P", it[1].id, it[2], it[3]) for it in items]
        cur = a
        for i, it in enumerate(items):
            last = i == len(items) - 1
            # a node in the middle is known by what follows it up to b
            dst = b if last else g.node(("m", b, tuple(keys[i + 1:])))
            if it[0] == "E":
                li.add_edge(g, cur, it[1], dst)
            else:
                _, h, x, y = it
                live = h.reaches(y) & h.forward(x)
                # embed a copy of h: a large growing one is shared by everything that starts with it at cur,
                # a finished one by everything that ends with it at dst
                pre = ("e", cur, h.id, x) if h.dyn is li else ("e", dst, h.id, x, y, 0)

                def nd(n):
                    return g.node(pre + (n,))
                for n in live:
                    for lab, m in h.out[n]:
                        if m not in live:
                            continue
                        li.add_edge(g, nd(n), lab, nd(m))
                        if m == y:
                            li.add_edge(g, nd(n), lab, dst)
                        if n == x:
                            li.add_edge(g, cur, lab, nd(m))
                            if m == y:
                                li.add_edge(g, cur, lab, dst)
                if x == y and not last:
                    raise Imprecise("possibly empty part inside a folded list")
            cur = dst

    def join(self, p, q, hull=True, force=False, widen=False):
        """Join q into p (same key): False when refused, 1 when p is unchanged, 2 when it grew."""
        dm = [i for i in p.ins if p.ins[i][1] != q.ins[i][1]] if p.ins.keys() == q.ins.keys() else None
        if dm is None:
            return False
        if len(dm) > 1 and not force:
            # nothing new?
            if not all(p.ins[i][1] | q.ins[i][1] == p.ins[i][1] for i in dm):
                return False
        if not hull and p.nums != q.nums:
            return False
        if not hull and p.rng != q.rng:
            return False
        ch = 1
        for i in dm:
            u, m = p.ins[i]
            n = m | q.ins[i][1]
            if n != m:
                p.ins[i] = (u, n)
                ch = 2
        for n, (ln, lo, hi) in q.nums.items():
            x = p.nums.get(n)
            if x is None:
                p.nums[n] = (ln, lo, hi)
                ch = 2
                continue
            l2 = x[0] if x[0] == ln else None
            a, b = imin(x[1], lo), imax(x[2], hi)
            if (l2, a, b) != x:
                if widen:
                    a, b = widened(x[1], a), (b if b == x[2] else None)
                p.nums[n] = (l2, a, b)
                ch = 2
        for s, (lo, hi) in q.rng.items():
            x = p.rng.get(s)
            if x is None:
                p.rng[s] = (lo, hi)
                continue
            a, b = imin(x[0], lo), imax(x[1], hi)
            if (a, b) != x:
                if widen:
                    a, b = widened(x[0], a), (b if b == x[1] else None)
                p.rng[s] = (a, b)
                ch = 2
        if q.fl - p.fl:
            p.fl = p.fl | q.fl
        if p.facts != q.facts:
            f = tuple(x for x in p.facts if x in q.facts)
            if f != p.facts:
                p.facts = f
                ch = 2
        return ch


def forget(q):
    """Keep of every number no more than its sign."""
    for n, (ln, lo, hi) in q.nums.items():
        q.nums[n] = (None, None if lo is None or lo < 0 else min(lo, 1), hi if hi is not None and -1 <= hi <= 1 else None)
    q.facts = ()
    q.rng = {}


def widened(old, new):
    if new == old:
        return new
    if new is None:
        return None
    if new >= 1:
        return 1
    if new >= 0:
        return 0
    return None


# ------------------------------------------------------------------ the solver
class LI:
    def __init__(self, ip, st, tag):
        self.ip, self.tag = ip, tag
        self.entry = st.copy()
        self.wm = st.nx
        self.graphs = {}
        self.kids = {}
        self.deps = {}
        self.dirty = False
        self.reads = {}

    def keyid(self, coarse):
        return self.kids.setdefault(coarse, len(self.kids))

    def graph(self, slot):
        g = self.graphs.get(slot)
        if g is None:
            g = self.graphs[slot] = Graph(dyn=self)
            g.node("s")
        return g

    def add_edge(self, g, a, lab, b):
        if g.add(a, lab, b):
            self.dirty = True

    def depends(self, g, h):
        """Is h copied (transitively) into g, or g itself?"""
        return g is h or h.id in self.deps.get(g.id, ())

    def depend(self, g, h):
        if self.depends(h, g):
            raise Imprecise("lists of one loop hold each other")
        new = {h.id} | self.deps.get(h.id, set())
        for k in [g.id] + [k for k, d in self.deps.items() if g.id in d]:
            self.deps.setdefault(k, set()).update(new)

    def note_read(self, g, a, b):
        k = (g, a, b)
        if k not in self.reads:
            self.reads[k] = g.size(a, b)

    def hidden(self, r):
        return False


class Head:
    __slots__ = ("state", "ints", "slots", "key", "count", "exits", "queued", "readdyn", "rank", "done")


VARIANTS = 14
DEBUG = None


def solve(ip, st, head, tag, chain=False, rank=None, leave=None):
    """Fixpoint of a loop: head(state) -> (exits, arrivals)."""
    ip.stats["loops"] += 1
    # run straight while nothing branches
    if chain:
        n = 0
        while True:
            snap = st.copy()
            saved = ip.exc
            ip.exc = []
            nev = len(ip.events)
            exits, arr = head(st)
            if not arr:
                ip.exc = saved + ip.exc
                return exits
            if exits or ip.exc or len(arr) != 1 or n > 5000:
                ip.exc = saved
                del ip.events[nev:]
                st = snap
                break
            ip.exc = saved
            st = arr[0]
            n += 1
    if len(ip.loops) > 12:
        raise Imprecise("loops nested too deep")
    li = LI(ip, st, tag)
    ip.loops.append(li)
    saved = ip.exc
    table = {}                         # coarse key -> [Head]
    work = []
    seq = [0]

    def push(h):
        if not h.queued:
            h.queued = True
            seq[0] += 1
            heapq.heappush(work, (h.rank, seq[0], h))

    def arrive(q):
        relints(ip, q, li.entry.heap)
        settle(ip, q)
        if ip.coarse:
            forget(q)
        c = Canon(ip, q, li.wm, li)
        (coarse, ints), s, _ = c.run()
        hs = table.setdefault(coarse, [])
        for h in hs:
            if h.ints == ints:
                r = c.join(h.state, s, widen=h.count > 8, force=ip.coarse)
                if r == 2:
                    h.count += 1 if h.done else 0
                    push(h)
                if r:
                    return
        # a form that covers both
        for h in hs:
            if len(h.ints) != len(ints):
                continue
            m = unify(h, c, s, ints)
            if m is not None:
                hi, ns = m
                changed = hi != h.ints
                h.ints = hi
                r = c.join(h.state, ns, widen=h.count > 8, force=ip.coarse)
                if not r:
                    continue
                if changed or r == 2:
                    h.count += 1 if h.done else 0
                    push(h)
                return
        if len(hs) >= VARIANTS:
            h = hs[0]
            widen_merge(h, c, s, ints)
            ip.note_imprecise = True
            push(h)
            return
        h = Head()
        h.state, h.ints, h.slots, h.count, h.exits, h.queued, h.readdyn = s, ints, c.slots, 0, [], False, False
        h.rank = rank(s) if rank is not None else 0
        h.done = False
        hs.append(h)
        push(h)

    try:
        arrive(st.copy())
        guard = 0
        while True:
            while work:
                _, _, h = heapq.heappop(work)
                if not h.queued:
                    continue
                h.queued = False
                guard += 1
                ip.stats["heads"] += 1
                if guard > 600000:
                    raise Imprecise("loop does not converge")
                if ip.deadline and guard % 16 == 0:
                    import time
                    if time.time() > ip.deadline:
                        raise Imprecise("time budget")
                ip.exc = []
                li.reads = {}
                exits, arr = head(h.state.copy())
                h.done = True
                exits = list(exits) + [(q, ("exc", x)) for q, x in ip.exc]
                h.exits = exits
                for q in arr:
                    arrive(q)
                h.readdyn = li.reads
            if li.dirty:
                li.dirty = False
                again = [h for hs in table.values() for h in hs
                         if h.readdyn and any(k[0].size(k[1], k[2]) != n for k, n in h.readdyn.items())]
                if again:
                    if DEBUG and len(ip.loops) == 1:
                        DEBUG(again, table, guard)
                    for h in again:
                        push(h)
                    continue
            break
    finally:
        ip.loops.pop()
        ip.exc = saved
    # leave: freeze what the loop built, close the reference registers, join equal exits
    out = {}
    order = []
    union_ends(ip, li, [x for hs in table.values() for h in hs for x in h.exits])
    for hs in table.values():
        for h in hs:
            for q, sig in h.exits:
                finish(ip, li, q, sig)
    res = []
    for hs in table.values():
        for h in hs:
            for q, sig in h.exits:
                v = None
                if leave is not None:
                    leave(q, sig)
                if sig[0] == "ret":
                    v = thaw(li, sig[1])
                sk = sig[0] if sig[0] != "exc" else ("exc", sig[1].cls, sig[1].where)
                c = Canon(ip, q, li.wm, None, entry=li.entry.heap)
                key, s, v2 = c.run(v)
                key = (sk, key)
                for p, _ in out.get(key, ()):
                    if c.join(p, s):
                        break
                else:
                    sg = ("ret", v2) if sig[0] == "ret" else sig
                    out.setdefault(key, []).append((s, sg))
                    res.append((s, sg))
    ip.last_heads = table
    return res


def union_ends(ip, li, exits):
    """Exits that differ only in where one growing list ends: let it end in one common node."""
    if len(exits) <= 8:
        return
    rows = []
    for q, sig in exits:
        if sig[0] == "ret":
            continue
        c = Canon(ip, q, li.wm, None, entry=li.entry.heap)
        (coarse, ints), _, _ = c.run()
        ends, key = [], []
        dyn = {g.id: g for g in li.graphs.values()}
        for k in coarse:
            if type(k) is tuple and len(k) == 4 and k[0] == "P" and k[1] in dyn:
                ends.append(k[1:])
                key.append(None)
            else:
                key.append(k)
        if len(ends) != len(c.spots) or not ends:
            continue
        rows.append([(sig[0], sig[1] if sig[0] == "exc" else None, tuple(key), ints), ends, c.spots, q, dyn])
    n = max((len(r[1]) for r in rows), default=0)
    for i in range(n):
        groups = {}
        for row in rows:
            e = row[1]
            if i < len(e) and e[i][1] != e[i][2]:
                groups.setdefault((row[0], tuple(e[:i]), e[i][:2], tuple(e[i + 1:])), []).append(row)
        for rs in groups.values():
            bs = sorted({row[1][i][2] for row in rs})
            if len(bs) < 2:
                continue
            gid, a = rs[0][1][i][:2]
            g = rs[0][4][gid]
            e = g.node(("exit", a, tuple(bs)))
            for b in bs:
                for lab, m in list(g.inn[b]):
                    g.add(m, lab, e)
            for row in rs:
                row[1][i] = (gid, a, e)
                r, k = row[2][i]
                rec = row[3].heap[r]
                ps = list(rec.pieces)
                ps[k] = ("P", g, a, e)
                row[3].heap[r] = Lst(ps, rec.kind)


def finish(ip, li, q, sig):
    """Turn an exit state of a loop into an ordinary state."""
    for r, rec in list(q.heap.items()):
        if li.entry.heap.get(r) is rec:
            continue
        t = type(rec)
        if t is Lst and any(p[0] == "P" and p[1].dyn is li for p in rec.pieces):
            q.heap[r] = Lst(thaw_pieces(li, rec.pieces), rec.kind)
        elif t is Frame and any(type(v) in (S, Tup, Pos) for v in rec.vars.values()):
            d = {k: thaw(li, v) for k, v in rec.vars.items()}
            q.heap[r] = Frame(d, rec.parent, rec.code, rec.mod)
        elif t is Obj and any(type(v) in (S, Tup, Pos) for v in rec.attrs.values()):
            q.heap[r] = Obj(rec.cls, {k: thaw(li, v) for k, v in rec.attrs.items()})


def thaw_pieces(li, ps):
    out = []
    for p in ps:
        if p[0] == "P" and p[1].dyn is li:
            p = ("P",) + freeze(p[1], p[2], p[3])
        elif p[0] == "E":
            v = thaw(li, p[1])
            if v is not p[1]:
                p = ("E", v)
        out.append(p)
    return tuple(out)


def thaw(li, v):
    if type(v) is S:
        if any((p[0] == "P" and p[1].dyn is li) or p[0] == "E" for p in v.pieces):
            ps = thaw_pieces(li, v.pieces)
            return S(ps) if ps != v.pieces else v
    elif type(v) is Tup:
        it = [thaw(li, x) for x in v.items]
        return Tup(it) if any(a is not b for a, b in zip(it, v.items)) else v
    return v


def candidates(st):
    """Linear forms over the reference registers that a program variable is likely to hold."""
    out = []
    for ctx in st.gh:
        r = {R: ("r", ctx, R) for R in REGS}
        for c in (("T",), ("G",), ("M",), ("T", "M", "G"), ("M", "G"), ("T", "M"), ("T", "G")):
            out.append(lin({r[x]: 1 for x in c}))
    return out


def holds(st, entry, L):
    """Does the linear form L describe this integer slot in this state?"""
    s = st.simp(L)
    if entry[0] == "K":
        return lin_is_const(s) and (s[0][1] if s else 0) == entry[1]
    return entry[2] is not None and st.simp(entry[2]) == s


def unify(h, c, s, ints):
    """Rewrite the integer slots of head h and state s to common linear forms; None if there are none."""
    forms = []
    cand = None
    for i, (a, b) in enumerate(zip(h.ints, ints)):
        if a == b:
            forms.append(None)
            continue
        if a[0] == "S" or b[0] == "S" or h.slots[i] is None:
            if a[0] == "S" and b[0] == "S" and (a[2] is None) != (b[2] is None):
                return None
            return None
        if a[0] == "N" and b[0] == "N" and (a[2] is None or b[2] is None) and a[1] == b[1]:
            forms.append("none")
            continue
        if a[0] == "N" and b[0] == "N" and a[1] != b[1]:
            return None
        if cand is None:
            cand = candidates(s)
        opts = [x[2] for x in (a, b) if x[0] == "N" and x[2] is not None] + cand
        for L in opts:
            if holds(h.state, a, L) and holds(s, b, L):
                forms.append(L)
                break
        else:
            return None
    ni = list(h.ints)
    for i, L in enumerate(forms):
        if L is None:
            continue
        slot = h.slots[i]
        if L == "none":
            for st in (h.state, s):
                n = h.ints[i][1]
                x = st.nums[n]
                st.nums[n] = (None, x[1], x[2])
            ni[i] = ("N", h.ints[i][1], None)
            continue
        ida = put_int(h.state, slot, h.ints[i], L, i)
        idb = put_int(s, slot, ints[i], L, i)
        if ida != idb:
            return None
        ni[i] = ("N", ida, L)
    return tuple(ni), s


def put_int(st, slot, ent, L, i):
    """Store N with linear form L in an integer slot; its id."""
    lo = hi = None
    if ent[0] == "K":
        lo = hi = ent[1]
        n = 10 ** 6 + i                 # ids for rewritten slots: the same in both states
        while n in st.nums:
            n += 1000
    else:
        n = ent[1]
        lo, hi = st.nums[n][1:]
    st.nums[n] = (L, lo, hi)
    set_slot(st, slot, N(n))
    if st.nx <= n:
        st.nx = n + 1
    return n


def set_slot(st, slot, v):
    r, kind, k = slot
    rec = st.heap[r]
    if kind == "var":
        st.heap[r] = Frame({**rec.vars, k: v}, rec.parent, rec.code, rec.mod)
    elif kind == "attr":
        st.heap[r] = Obj(rec.cls, {**rec.attrs, k: v})
    elif kind == "key":
        st.heap[r] = Dct({**rec.d, k: v}, None, rec.kind, rec.default)
    elif kind == "idx":
        ps = list(rec.pieces)
        ps[k] = ("E", v)
        st.heap[r] = Lst(ps, rec.kind)
    else:
        raise Imprecise("slot")


def widen_merge(h, c, s, ints):
    """Too many variants of a head: forget the linear forms where they differ and take the hull."""
    ni = list(h.ints)
    for i, (a, b) in enumerate(zip(h.ints, ints)):
        if a == b or h.slots[i] is None:
            continue
        lo1, hi1 = (a[1], a[1]) if a[0] == "K" else h.state.nums[a[1]][1:]
        lo2, hi2 = (b[1], b[1]) if b[0] == "K" else s.nums[b[1]][1:]
        if a[0] == "N":
            n = a[1]
        else:
            n = 10 ** 6 + i
            while n in h.state.nums:
                n += 1000
        lo, hi = imin(lo1, lo2), imax(hi1, hi2)
        if h.count > 3 or h.done:
            lo = widened(lo1, lo)
            hi = hi if hi == hi1 else None
        h.state.nums[n] = (None, lo, hi)
        set_slot(h.state, h.slots[i], N(n))
        h.state.nx = max(h.state.nx, n + 1)
        ni[i] = ("N", n, None)
    h.state.flag("hull")
    h.count += 1
    for i, (u, m) in s.ins.items():
        if i in h.state.ins:
            h.state.ins[i] = (u, m | h.state.ins[i][1])
    for n, x in s.nums.items():
        y = h.state.nums.get(n)
        if y is not None and ("N", n) not in [(t[0], t[1]) for t in ni if t[0] == "N" and t[2] is None]:
            h.state.nums[n] = (y[0] if y[0] == x[0] else None, imin(x[1], y[1]), imax(x[2], y[2]))
    for sy, r in s.rng.items():
        y = h.state.rng.get(sy)
        h.state.rng[sy] = r if y is None else (imin(y[0], r[0]), imax(y[1], r[1]))
    h.ints = tuple(ni)


# ------------------------------------------------------------------ for loops
def iterate(ip, st, it, body, tag, leave=None):
    """Run body(state, element) for each element of an iterable; exits with ('done',), ('brk',), ret, exc."""
    outs = []
    srcs = ip.models.pieces(st, it)
    for q, ps in srcs:
        itref = it if isinstance(it, Ref) and isinstance(ip.get(q, it.id), Lst) and ip.get(q, it.id).kind == "iter" else None
        if not any(p[0] == "P" for p in ps):
            outs.extend(iterate_exact(ip, q, ps, body, itref))
        else:
            outs.extend(iterate_path(ip, q, ps, body, tag, itref, leave))
    return outs


def iterate_exact(ip, st, ps, body, itref):
    cur = [st]
    out = []
    wm = st.nx
    for i, p in enumerate(ps):
        nxt = []
        for q in cur:
            if itref is not None and (len(ps) < 200):
                rec = ip.get(q, itref.id)
                if rec.pieces and len(rec.pieces) < len(ps) - i:
                    # advanced by next() inside the body
                    if len(rec.pieces) == 0:
                        nxt.append(q)
                        continue
                ip.set(q, itref.id, Lst(ps[i + 1:], "iter"))
            for x, sig in body(q, p[1]):
                if sig is None or sig == ("cont",):
                    nxt.append(x)
                else:
                    out.append((x, sig))
        if len(nxt) > 1:
            nxt = [x for x, _ in ip.merge_outs([(x, NONE) for x in nxt], wm)]
        cur = nxt
        if len(cur) > ip.MAXSTATES:
            raise Imprecise("too many states in a loop")
        if not cur:
            break
    for q in cur:
        if itref is not None:
            ip.set(q, itref.id, Lst((), "iter"))
        out.append((q, ("done",)))
    return out


def iterate_path(ip, st, ps, body, tag, itref, leave=None):
    ctx = len(ip.loops)
    own = itref is None
    r = itref.id if itref is not None else ip.alloc(st, Lst(ps, "iter")).id
    st.gh[ctx] = None
    st.pend[ctx] = None
    ip.stats.setdefault("paths", 0)

    def rank(s):
        for p in s.heap[r].pieces:
            if p[0] == "P":
                return -len(s.heap[r].pieces), p[1].rank(p[2])
        return (0, 1 << 30)

    def head(q):
        exits, arr = [], []
        items, empty = expand(ip, q.heap[r].pieces)
        if empty:
            e = q.copy() if items else q
            e.heap[r] = Lst((), "iter")
            exits.append((e, ("done",)))
        if items:
            for x, v, rest, inst in take(ip, q, items):
                x.heap[r] = Lst(rest, "iter")
                x.pend[ctx] = inst
                for y, sig in body(x, v):
                    if sig is None or sig == ("cont",):
                        arr.append(y)
                    else:
                        exits.append((y, sig))
        for y, _ in exits:
            if own:
                y.heap[r] = Lst((), "iter")
            relints(ip, y, li_entry(ip))
            settle(ip, y)
            close_ctx(ip, y, ctx)
        return exits, arr

    def wrapped(q):
        saved = ip.exc
        ip.exc = []
        ex, ar = head(q)
        for y, x in ip.exc:
            relints(ip, y, li_entry(ip))
            settle(ip, y)
            close_ctx(ip, y, ctx)
        ip.exc = saved + ip.exc
        return ex, ar
    res = solve(ip, st, wrapped, tag, rank=rank, leave=leave)
    if own:
        for q, _ in res:
            q.heap.pop(r, None)
    return res


def li_entry(ip):
    return ip.loops[-1].entry.heap if ip.loops else None
