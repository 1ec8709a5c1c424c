"""Summaries: the result of a call on abstract lists, computed once and applied wherever the same arguments come up.

A callee can only see what is reachable from its arguments, from its defaults and from the module; the rest of the
state is carried over unchanged.
"""
from .vals import *
from .state import *


def eligible(ip, st, f, vs):
    if ip.loading or f.cached or f.code.isgen or f.frame not in ip.base or st.facts or not ip.loops:
        return False
    for v in vs.values():
        if type(v) is Ref:
            rec = ip.get(st, v.id)
            if type(rec) is Lst and any(p[0] == "P" for p in rec.pieces):
                break
        elif type(v) is S and any(p[0] == "P" for p in v.pieces):
            break
    else:
        return False
    return not any(r in ip.base for r in st.heap)


def reach(ip, st, vs):
    seen, todo = {}, list(vs.values())
    base = ip.base
    while todo:
        v = todo.pop()
        t = type(v)
        if t is Ref:
            r = v.id
        elif t is Tup:
            todo.extend(v.items)
            continue
        elif t is S:
            todo.extend(p[1] for p in v.pieces if p[0] == "E")
            continue
        elif t is Fn:
            r = v.frame
            todo.extend(v.defaults)
            todo.extend(x for _, x in v.kwdefaults)
        elif t is Bound:
            todo += [v.fn, v.self_]
            continue
        elif t is Meth:
            todo.append(v.recv)
            continue
        elif t is Part:
            todo.append(v.fn)
            todo.extend(v.args)
            todo.extend(x for _, x in v.kw)
            continue
        elif t is Pos:
            for s in (v.src or (),) + tuple(v.before) + tuple(v.after):
                todo.extend(p[1] for p in s if p[0] == "E")
            continue
        else:
            continue
        if r is None or r in base or r in seen:
            continue
        rec = ip.get(st, r) if ip.logs else st.heap[r]
        seen[r] = rec
        todo.extend(refs_of(rec))
    return seen


def call(ip, st, f, vs):
    """Like ip.call_body(st, f, vs), through a summary; None when it does not apply."""
    from .loops import Canon, settle, relints
    if not eligible(ip, st, f, vs):
        return None
    if any(i is not None for i in st.pend.values()):
        li = ip.loops[-1]
        # the word being read gets its meaning before the call, as it would at the head of any loop inside it
        relints(ip, st, li.entry.heap)
        settle(ip, st)
    sub = St()
    try:
        sub.heap = reach(ip, st, vs)
    except KeyError:
        return None
    if any(type(r) is Frame for r in sub.heap.values()):
        return None
    sub.ins, sub.nums, sub.rng = st.ins, st.nums, st.rng
    sub.nx = st.nx
    sub.seen = tuple(r for r in st.seen if r in sub.heap)
    names = sorted(vs)
    c = Canon(ip, sub, ip.base0, None, entry={})
    (key, ints), q, arg = c.run(Tup(vs[n] for n in names))
    parts, reads = [], []

    def dyn(ps):
        for p in ps:
            if p[0] == "P" and p[1].dyn is not None:
                reads.append(p[1:4])
                parts.append((p[1].id, p[2], p[3], p[1].size(p[2], p[3])))
            elif p[0] == "E" and type(p[1]) is S:
                dyn(p[1].pieces)
    for rec in sub.heap.values():
        if type(rec) is Lst:
            dyn(rec.pieces)
        elif type(rec) in (Dct, Obj, SetR):
            for v in refs_of(rec):
                if type(v) is S:
                    dyn(v.pieces)
    for v in vs.values():
        if type(v) is S:
            dyn(v.pieces)
    for g, a, b in reads:
        g.dyn.note_read(g, a, b)
    syms = set()
    for n, (ln, lo, hi) in q.nums.items():
        for s, _ in ln or ():
            syms.add(s)
    syms |= {s for s in st.rng if s in ip.unique}
    q.rng = {s: r for s, r in st.rng.items() if s in syms}
    key = (f.code, tuple(names), key, ints, tuple(parts), len(ip.loops),
           tuple(sorted((i, id(u), m) for i, (u, m) in q.ins.items())),
           tuple(sorted(((n, x) for n, x in q.nums.items()), key=repr)),
           tuple(sorted(q.rng.items(), key=repr)), ip.deadline)
    q.gh, q.pend = {}, {}
    q.trail = None
    q.frames = ()
    hit = ip.summaries.get(key)
    if hit is None:
        q0 = q.copy()
        saved, ip.exc = ip.exc, []
        logs, ip.logs = ip.logs, []
        nev = len(ip.events)
        try:
            outs = ip.call_body(q, f, dict(zip(names, arg.items)))
            excs = ip.exc
            evs = ip.events[nev:]
        except Exception as e:
            if hasattr(e, "inst"):              # NeedPW: in terms of the caller's word
                inv = {j: i for i, j in c.ri.items()}
                if e.inst in inv:
                    e.inst = inv[e.inst]
            raise
        finally:
            ip.exc = saved
            ip.logs = logs
        hit = ip.summaries[key] = (q0, outs, excs, evs)
        ip.stats["summaries"] = ip.stats.get("summaries", 0) + 1
    else:
        ip.events.extend(hit[3])
        ip.stats["reused"] = ip.stats.get("reused", 0) + 1
    q0, outs, excs, evs = hit
    if evs and ip.logs:
        from .interp import NotPure
        for lg in ip.logs:
            lg[2][0] = True
        raise NotPure()
    inv = {j: i for i, j in c.ri.items()}
    inv.update({j: i for i, j in c.rn.items()})
    inv.update({j: i for i, j in c.rr.items()})
    n = len(outs) + len(excs)
    res = []
    for k, (x, v) in enumerate(outs):
        t = st.copy() if n > 1 else st
        res.append((t, apply(ip, t, q0, x, v, inv)))
    for x, e in excs:
        t = st.copy()
        o = None
        if e.obj is not None:
            raise Imprecise("exception object through a summary")
        apply(ip, t, q0, x, NONE, inv)
        ip.exc.append((t, e))
    return res


def apply(ip, st, q0, x, v, inv0):
    """Carry the effect of a summarised call (from q0 to x) over to st; the returned value."""
    inv = dict(inv0)
    wm = ip.base0

    def f(i):
        if i < wm:
            return i
        j = inv.get(i)
        if j is None:
            j = inv[i] = st.new()
        return j

    def flin(ln):
        if ln is None:
            return None
        if any(s[0] == "v" and s[1] >= wm for s, _ in ln):
            return lin({(("v", f(s[1])) if s[0] == "v" else s): c for s, c in ln})
        return ln

    def fv(y):
        return map_val(y, f, f, f)
    for i, (u, m) in x.ins.items():
        if i not in q0.ins or q0.ins[i] != (u, m):
            st.ins[f(i)] = (u, m)
    for i, (ln, lo, hi) in x.nums.items():
        if q0.nums.get(i) != (ln, lo, hi):
            st.nums[f(i)] = (flin(ln), lo, hi)
    for r, rec in x.heap.items():
        if q0.heap.get(r) is not rec:
            if r in q0.heap:
                ip.set(st, f(r), map_rec(rec, fv, f))
            else:
                st.heap[f(r)] = map_rec(rec, fv, f)
    for s, r in x.rng.items():
        if q0.rng.get(s) != r:
            st.rng[s] = r
    if x.fl - st.fl:
        st.fl = st.fl | x.fl
    if x.facts:
        st.facts = ()
    if x.seen != q0.seen:
        st.seen = tuple(sorted(set(st.seen) | {f(r) for r in x.seen}))
    tr, todo = x.trail, []
    while tr is not None:
        todo.append(tr)
        tr = tr[0]
    for _, ctx, u, m in reversed(todo):
        st.trail = (st.trail, ctx, u, m)
    return fv(v)
