"""Abstract interpreter over the Python syntax tree of the analysed package.

It never imports or runs the analysed code: the source is parsed, and every construct is given an
abstract meaning (sets of states over the domain of vals.py/state.py).  Loops over abstract lists are
solved as fixpoints, so nothing is bounded by a number of iterations.
"""
import ast
import os
import builtins as pybuiltins

from .vals import *
from .state import *
from .live import Live
from . import summary


class NeedPW(Exception):
    """An operation needs one known word of this instance."""

    def __init__(self, inst, why=""):
        Exception.__init__(self, why)
        self.inst = inst


class AnchorLost(Exception):
    pass


class NotPure(Exception):
    """A call tried on constants has an effect."""


class Code:
    """A function body ready to be interpreted."""

    def __init__(self, node, name, modname, filename):
        self.node, self.name, self.modname, self.filename = node, name, modname, filename
        self.nopw = False
        self.impure = 0
        self.waspure = False
        self.live = None
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.body = node.body if isinstance(node.body, list) else None
        self.locals, self.globals, self.nonlocals, self.isgen = scan_scope(node)
        self.locals |= set(self.params) | set(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        if self.body is not None and not self.isgen:
            self.live = Live(node, self.locals)


def scan_scope(fn):
    """Names bound in a function's own scope, its global/nonlocal declarations, and whether it yields."""
    loc, glo, non, gen = set(), set(), set(), False
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            todo.extend(n.decorator_list)
            if isinstance(n, ast.FunctionDef):
                todo.extend(n.args.defaults)
                todo.extend([d for d in n.args.kw_defaults if d is not None])
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            todo.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    loc.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return loc - glo - non, glo, non, gen


class Interp:
    MAXSTATES = 4000

    def __init__(self, repo, package="number_parser", budget=None):
        self.repo, self.package = repo, package
        self.base = {}
        self.summaries = {}
        self.modules = {}             # dotted name -> Mod
        self.exc = []                 # sink: (st, Exc)
        self.events = []              # (kind, detail, where, flags)
        self.codes = {}
        self.memo = {}
        self.logs = []
        self.depth = 0
        self.line = None
        self.loops = []               # active abstract loops
        self.stats = {"functions": set(), "loops": 0, "heads": 0, "calls": 0, "steps": 0}
        self.analysed = set()
        self.loading = True
        self.sources = {}
        self.canonpos = lambda p: p
        self.isneutral = lambda u: u.act is None and not u.brk
        self.deadline = None
        self.unique = frozenset()
        self.fine = False
        self.coarse = False
        self.handlers = {}
        self.concrete = False         # replaying calls on constants: no shortcuts, caches live
        self.cache_ref = None
        self.on_event = None
        self.on_call = None
        self.fallback_lang = None
        from . import models
        self.models = models.Models(self)
        self._ev = {
            getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("ev_")}
        self._ex = {
            getattr(ast, n[3:]): getattr(self, n) for n in dir(self) if n.startswith("ex_")}
        self.load_state = St()

    # ------------------------------------------------------------------ heap
    def get(self, st, r):
        rec = st.heap.get(r)
        if rec is None:
            rec = self.base[r]
        if self.logs:
            for lg in self.logs:
                if r < lg[0]:
                    lg[1].setdefault(r, rec)
        return rec

    def set(self, st, r, rec, write=True):
        if write:
            if r in self.base:
                self.event(st, "shared-write", r)
            elif st.heap.get(r) is not None and r in self.shared_of(st):
                self.event(st, "shared-write", r)
        if self.logs:
            for lg in self.logs:
                if r < lg[0]:
                    lg[2][0] = True
            if self.logs[-1][2][0]:
                raise NotPure()
        st.heap[r] = rec

    def shared_of(self, st):
        return st.seen

    def alloc(self, st, rec):
        r = st.new()
        st.heap[r] = rec
        return Ref(r)

    def event(self, st, kind, detail):
        if self.loading:
            return
        self.events.append((kind, detail, self.where(), st.fl))
        if self.on_event is not None:
            self.on_event(st, kind)
        for lg in self.logs:
            lg[2][0] = True
        if self.logs:
            raise NotPure()

    def where(self):
        return self.line

    def throw(self, st, cls, *args, obj=None):
        self.exc.append((st, Exc(cls, args, self.line, obj=obj)))

    # ------------------------------------------------------------------ names
    def lookup(self, st, name):
        r = st.frames[-1]
        first = True
        while r is not None:
            fr = self.get(st, r)
            if name in fr.vars:
                return fr.vars[name]
            if fr.code is not None and name in fr.code.globals:
                break
            if first and fr.code is not None and name in fr.code.locals and not getattr(fr.code, "isclass", False):
                return None
            first = fr.code is None or getattr(fr.code, "iscomp", False)
            r = fr.parent
        fr = self.get(st, st.frames[-1])
        mf = self.get(st, fr.mod)
        if name in mf.vars:
            return mf.vars[name]
        return self.models.builtin(name)

    def assign_name(self, st, name, v):
        r = st.frames[-1]
        fr = self.get(st, r)
        # comprehension frames: their targets are set by set_local
        code = fr.code
        while code is not None and getattr(code, "iscomp", False):
            r = fr.parent
            fr = self.get(st, r)
            code = fr.code
        if code is not None and name in code.globals:
            r = fr.mod
            fr = self.get(st, r)
            self.set(st, r, Frame({**fr.vars, name: v}, fr.parent, fr.code, fr.mod))
            return
        if code is not None and name in code.nonlocals:
            r = fr.parent
            while r is not None:
                fr = self.get(st, r)
                if name in fr.vars or (fr.code is not None and name in fr.code.locals):
                    break
                r = fr.parent
            else:
                raise Imprecise("nonlocal %s not found" % name)
        self.set(st, r, Frame({**fr.vars, name: v}, fr.parent, fr.code, fr.mod), write=False)

    def set_local(self, st, name, v):
        r = st.frames[-1]
        fr = self.get(st, r)
        self.set(st, r, Frame({**fr.vars, name: v}, fr.parent, fr.code, fr.mod), write=False)

    # ------------------------------------------------------------------ modules
    def source(self, dotted):
        p = os.path.join(self.repo, *dotted.split("."))
        for f in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(f):
                return f
        return None

    def load(self, st, dotted):
        """Interpret a module of the package once; the Mod value."""
        m = self.modules.get(dotted)
        if m is not None:
            return m
        f = self.source(dotted)
        if f is None:
            return None
        if "." in dotted:
            self.load(st, dotted.rsplit(".", 1)[0])
        with open(f, encoding="utf8") as fh:
            src = fh.read()
        tree = ast.parse(src, f)
        self.sources[dotted] = (f, tree)
        r = st.new()
        if self.loading:
            st.heap[r] = Frame({"__name__": K(dotted)}, None, None, r)
        else:
            st.heap[r] = Frame({"__name__": K(dotted)}, None, None, r)
        m = Mod(dotted, r)
        self.modules[dotted] = m
        saved = st.frames
        st.frames = saved + (r,)
        pk = dotted if f.endswith("__init__.py") else dotted.rsplit(".", 1)[0]
        self.get(st, r).vars["__package__"] = K(pk)
        self.get(st, r).vars["__file__"] = K(f)
        outs = self.block(tree.body, st)
        outs = [(s, sig) for s, sig in outs]
        if len(outs) != 1 or outs[0][1] is not None or self.exc:
            raise Imprecise("module %s does not load to one state: %r %r" % (dotted, [o[1] for o in outs], self.exc[:1]))
        s = outs[0][0]
        if s is not st:
            st.heap, st.nx, st.ins, st.nums = s.heap, s.nx, s.ins, s.nums
        st.frames = saved
        return m

    def load_package(self, extra=()):
        st = self.load_state
        self.load(st, self.package)
        for d in extra:
            self.load(st, d)
        self.cache_ref = st.new()
        st.heap[self.cache_ref] = Dct({})
        self.base = dict(st.heap)
        self.base0 = st.nx
        self.loading = False

    def fresh(self):
        """A state to start an analysis from."""
        st = St()
        st.nx = self.base0
        r = st.new()
        st.heap[r] = Frame({}, None, None, self.modules[self.package].frame)
        st.frames = (r,)
        return st

    def api(self, name, module=None):
        m = self.modules.get(module or self.package)
        if m is None:
            raise AnchorLost("module %s" % (module or self.package))
        v = self.base[m.frame].vars.get(name)
        if v is None:
            raise AnchorLost("%s.%s" % (module or self.package, name))
        return v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """Run statements; list of (state, signal): None, ('ret', v), ('brk',), ('cont',), ('exc', Exc)."""
        cur = [(st, None)]
        for s in stmts:
            nxt = []
            for q, sig in cur:
                if sig is not None:
                    nxt.append((q, sig))
                else:
                    nxt.extend(self.stmt(s, q))
            cur = nxt
            self.bury(s, cur)
            if len(cur) > self.MAXSTATES:
                raise Imprecise("too many states at line %s" % getattr(s, "lineno", "?"))
            if not cur:
                break
        return cur

    def stmt(self, s, st):
        self.stats["steps"] += 1
        if self.deadline and self.stats["steps"] % 256 == 0:
            import time
            if time.time() > self.deadline:
                raise Imprecise("time budget")
        self.line = (self.curfile(st), s.lineno)
        f = self._ex.get(type(s))
        if f is None:
            raise Imprecise("statement %s at line %d" % (type(s).__name__, s.lineno))
        saved = self.exc
        self.exc = []
        snap = st.copy() if st.ins else None
        try:
            outs = f(s, st)
        except NeedPW as e:
            if snap is None or e.inst not in snap.ins:
                raise
            self.exc = []
            outs = self.stmt_pw(s, snap, e.inst, f)
        outs = list(outs)
        if self.exc:
            outs.extend((q, ("exc", x)) for q, x in self.exc)
        self.exc = saved
        return outs

    def stmt_pw(self, s, snap, inst, f):
        """Run a statement once per live word of an instance, then put the results together again."""
        u, m = snap.ins[inst]
        live = list(bits(m))
        if len(live) == 1:
            raise Imprecise("pointwise on one word")
        per = []
        for w in live:
            q = snap.copy()
            q.ins[inst] = (u, 1 << w)
            self.exc, sv = [], self.exc
            outs = list(f(s, q)) + [(x, ("exc", y)) for x, y in self.exc]
            self.exc = sv
            per.append((w, outs))
        # merge the words whose only effect is on constants of the current frame / the value returned
        groups, rest = {}, []
        fr0 = st_frame(self, snap)
        for w, outs in per:
            ok = len(outs) == 1
            if ok:
                q, sig = outs[0]
                fr = st_frame(self, q)
                ok = all(q.heap.get(k) is r for k, r in snap.heap.items() if k != snap.frames[-1])
                if ok:
                    diff = []
                    for n, v in fr.vars.items():
                        if fr0.vars.get(n) != v:
                            c, cv = q.const(v)
                            if not c or isinstance(v, Tup):
                                ok = False
                                break
                            diff.append((n, cv))
                    if ok and sig is not None:
                        if sig[0] == "ret":
                            c, cv = q.const(sig[1])
                            ok = c and not isinstance(sig[1], Tup)
                            if ok:
                                groups.setdefault((tuple(sorted(n for n, _ in diff)), "ret"), []).append(
                                    (w, dict(diff), cv, q))
                        elif sig[0] in ("brk", "cont"):
                            groups.setdefault((tuple(sorted(n for n, _ in diff)), sig[0]), []).append(
                                (w, dict(diff), None, q))
                        else:
                            ok = False
                    elif ok:
                        groups.setdefault((tuple(sorted(n for n, _ in diff)), None), []).append(
                            (w, dict(diff), None, q))
            if not ok:
                rest.extend(outs)
        res = []
        n = len(u.words)
        for (names, sig), items in groups.items():
            q = snap.copy()
            q.nx = max(it[3].nx for it in items)
            for it in items:
                if it[3].fl - q.fl:
                    q.fl = q.fl | it[3].fl
            mask = 0
            tabs = {x: [None] * n for x in names}
            rt = [None] * n
            for w, d, rv, _ in items:
                mask |= 1 << w
                for x in names:
                    tabs[x][w] = d[x]
                rt[w] = rv
            q.ins[inst] = (u, mask)
            fr = st_frame(self, q)
            vs = dict(fr.vars)
            for x in names:
                vs[x] = self.mkrel(q, inst, tabs[x])
            q.heap[q.frames[-1]] = Frame(vs, fr.parent, fr.code, fr.mod)
            if sig == "ret":
                res.append((q, ("ret", self.mkrel(q, inst, rt))))
            elif sig is None:
                res.append((q, None))
            else:
                res.append((q, (sig,)))
        res.extend(rest)
        return res

    def mkrel(self, st, inst, tab):
        """A Rel, or a constant when it is one and does not carry the word itself."""
        v = Rel(inst, intern_tab(tab))
        ok, c = st.const(v)
        if ok and not isinstance(c, str):
            return K(c)
        return v

    def curfile(self, st):
        fr = self.get(st, st.frames[-1])
        return self.get(st, fr.mod).vars["__name__"].v if fr.mod is not None else "?"

    def ex_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(q, None) for q, _ in self.ev(s.value, st)]

    def ex_Pass(self, s, st):
        return [(st, None)]

    def ex_Break(self, s, st):
        return [(st, ("brk",))]

    def ex_Continue(self, s, st):
        return [(st, ("cont",))]

    def ex_Return(self, s, st):
        if s.value is None:
            return [(st, ("ret", NONE))]
        return [(q, ("ret", v)) for q, v in self.ev(s.value, st)]

    def ex_Assign(self, s, st):
        out = []
        for q, v in self.ev(s.value, st):
            cur = [q]
            for t in s.targets:
                cur = [y for x in cur for y in self.assign(t, x, v)]
            out.extend((x, None) for x in cur)
        return out

    def ex_AnnAssign(self, s, st):
        fr = self.get(st, st.frames[-1])
        if getattr(fr.code, "isclass", False) and isinstance(s.target, ast.Name):
            ann = fr.vars.get("__annotations__")
            names = (ann.v if ann else ()) + (s.target.id,)
            self.set_local(st, "__annotations__", K(names))
        if s.value is None:
            return [(st, None)]
        out = []
        for q, v in self.ev(s.value, st):
            out.extend((x, None) for x in self.assign(s.target, q, v))
        return out

    def ex_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            pairs = [(q, (v,)) for q, v in self.ev(load, st)]
            put = lambda q, loc, v: self.assign(t, q, v)
        elif isinstance(t, ast.Attribute):
            pairs = []
            for q, o in self.ev(t.value, st):
                for q2, v in self.getattr(q, o, t.attr):
                    pairs.append((q2, (v, o)))
            put = lambda q, loc, v: self.setattr(q, loc[1], t.attr, v)
        elif isinstance(t, ast.Subscript):
            pairs = []
            for q, o in self.ev(t.value, st):
                for q2, i in self.ev(t.slice, q):
                    for q3, v in self.models.subscript(q2, o, i):
                        pairs.append((q3, (v, o, i)))
            put = lambda q, loc, v: self.models.setitem(q, loc[1], loc[2], v)
        else:
            raise Imprecise("augmented target")
        out = []
        for q, loc in pairs:
            for q2, r in self.ev(s.value, q):
                cur = loc[0]
                if isinstance(s.op, ast.Add) and isinstance(cur, Ref) and isinstance(self.get(q2, cur.id), Lst):
                    for q3 in self.models.list_extend(q2, cur, r):
                        out.extend((x, None) for x in put(q3, loc, cur))
                    continue
                for q3, v in self.models.binop(q2, type(s.op).__name__, cur, r, True):
                    out.extend((x, None) for x in put(q3, loc, v))
        return out

    def assign(self, t, st, v):
        """Bind a target; list of states."""
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for q, vs in self.models.unpack(st, v, len(t.elts), star[0] if star else None):
                cur = [q]
                for x, y in zip(t.elts, vs):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    cur = [z for c in cur for z in self.assign(x, c, y)]
                out.extend(cur)
            return out
        if isinstance(t, ast.Attribute):
            return [y for q, o in self.ev(t.value, st) for y in self.setattr(q, o, t.attr, v)]
        if isinstance(t, ast.Subscript):
            out = []
            for q, o in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    if t.slice.step is not None:
                        raise Imprecise("assignment to a slice with a step")
                    for q2, (lo, hi) in self.slice_bounds(t.slice, q):
                        out.extend(self.models.setslice(q2, o, lo, hi, v))
                    continue
                for q2, i in self.ev(t.slice, q):
                    out.extend(self.models.setitem(q2, o, i, v))
            return out
        raise Imprecise("assignment target %s" % type(t).__name__)

    def setattr(self, st, o, name, v):
        if isinstance(o, Ref):
            rec = self.get(st, o.id)
            if isinstance(rec, Obj):
                self.set(st, o.id, Obj(rec.cls, {**rec.attrs, name: v}))
                return [st]
            if isinstance(rec, ClsR):
                self.set(st, o.id, ClsR(rec.name, rec.bases, {**rec.attrs, name: v}, rec.meta))
                return [st]
        if isinstance(o, Mod) and o.frame is not None:
            fr = self.get(st, o.frame)
            self.set(st, o.frame, Frame({**fr.vars, name: v}, fr.parent, fr.code, fr.mod))
            return [st]
        raise Imprecise("attribute assignment on %r" % (o,))

    def ex_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for q in cur:
                if isinstance(t, ast.Name):
                    fr = self.get(q, q.frames[-1])
                    vs = dict(fr.vars)
                    vs.pop(t.id, None)
                    self.set(q, q.frames[-1], Frame(vs, fr.parent, fr.code, fr.mod), write=False)
                    nxt.append(q)
                elif isinstance(t, ast.Subscript):
                    for q1, o in self.ev(t.value, q):
                        if isinstance(t.slice, ast.Slice):
                            for q2, (lo, hi) in self.slice_bounds(t.slice, q1):
                                nxt.extend(self.models.delslice(q2, o, lo, hi))
                        else:
                            for q2, i in self.ev(t.slice, q1):
                                nxt.extend(self.models.delitem(q2, o, i))
                else:
                    raise Imprecise("del target")
            cur = nxt
        return [(q, None) for q in cur]

    def slice_bounds(self, sl, st):
        out = []
        for q, lo in (self.ev(sl.lower, st) if sl.lower is not None else [(st, NONE)]):
            for q2, hi in (self.ev(sl.upper, q) if sl.upper is not None else [(q, NONE)]):
                out.append((q2, (lo, hi)))
        return out

    def ex_If(self, s, st):
        out = []
        for q, b in self.test(s.test, st):
            out.extend(self.block(s.body if b else s.orelse, q))
        return out

    def test(self, e, st):
        """Evaluate a condition: list of (state, bool)."""
        if isinstance(e, ast.BoolOp):
            cur = [(st, isinstance(e.op, ast.And))]
            stop = isinstance(e.op, ast.Or)
            done = []
            for x in e.values:
                nxt = []
                for q, _ in cur:
                    for q2, b in self.test(x, q):
                        (done if b == stop else nxt).append((q2, b))
                cur = nxt
            return done + cur
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(q, not b) for q, b in self.test(e.operand, st)]
        if isinstance(e, ast.Compare):
            out = []
            for q, v in self.ev_Compare(e, st, split=True):
                out.extend(self.models.truth(q, v))
            return out
        out = []
        for q, v in self.ev(e, st):
            out.extend(self.models.truth(q, v))
        return out

    def bury(self, s, outs):
        """Forget the locals that are dead after s."""
        for q, sig in outs:
            if sig is not None and (sig != ("cont",) or type(s) is not ast.Continue):
                continue
            f = q.frames[-1]
            rec = q.heap.get(f)
            if rec is None or rec.code is None or rec.code.live is None:
                return
            k = rec.code.live.kill.get(id(s))
            if not k:
                return
            if any(n in rec.vars for n in k):
                q.heap[f] = Frame({n: v for n, v in rec.vars.items() if n not in k}, rec.parent, rec.code, rec.mod)

    def leaving(self, s):
        """What to forget when a loop is left."""
        def f(q, sig):
            fr = q.frames[-1]
            rec = q.heap.get(fr)
            if rec is None or rec.code is None or rec.code.live is None:
                return
            lv = rec.code.live
            if sig[0] in ("done", "brk"):
                keep = lv.after.get(id(s))
                if keep is None or (sig[0] == "done" and s.orelse):
                    return
            elif sig[0] == "ret":
                keep = ()
            else:
                return
            if any(n in lv.names and n not in keep for n in rec.vars):
                q.heap[fr] = Frame({n: v for n, v in rec.vars.items() if n in keep or n not in lv.names},
                                   rec.parent, rec.code, rec.mod)
        return f

    def ex_While(self, s, st):
        def head(q):
            exits, arr = [], []
            for x, b in self.test(s.test, q):
                if not b:
                    exits.append((x, ("done",)))
                    continue
                for y, sig in self.block(s.body, x):
                    if sig is None or sig == ("cont",):
                        arr.append(y)
                    else:
                        exits.append((y, sig))
            return exits, arr
        exits = self.solve(st, head, ("while", id(s)), chain=True, leave=self.leaving(s))
        return self.loop_exits(exits, s.orelse)

    def loop_exits(self, exits, orelse):
        out = []
        for q, sig in exits:
            if sig == ("done",):
                if orelse:
                    out.extend(self.block(orelse, q))
                else:
                    out.append((q, None))
            elif sig == ("brk",):
                out.append((q, None))
            else:
                out.append((q, sig))
        return out

    def ex_For(self, s, st):
        out = []
        for q, it in self.ev(s.iter, st):
            def body(x, v):
                res = []
                for y in self.assign(s.target, x, v):
                    res.extend(self.block(s.body, y))
                return res
            out.extend(self.loop_exits(self.iterate(q, it, body, ("for", id(s)), self.leaving(s)), s.orelse))
        return out

    def ex_FunctionDef(self, s, st):
        code = self.code_of(s, s.name, st)
        out = []
        for q, fn in self.mkfn(code, s.args, st):
            cur = [(q, fn)]
            for d in reversed(s.decorator_list):
                nxt = []
                for x, f in cur:
                    for y, dec in self.ev(d, x):
                        nxt.extend(self.models.decorate(y, dec, f))
                cur = nxt
            for x, f in cur:
                self.assign_name(x, s.name, f)
                out.append((x, None))
        return out

    def code_of(self, node, name, st):
        c = self.codes.get(id(node))
        if c is None:
            fr = self.get(st, st.frames[-1])
            mod = self.get(st, fr.mod).vars["__name__"].v
            c = Code(node, name, mod, mod)
            self.codes[id(node)] = c
        return c

    def mkfn(self, code, args, st):
        out = []
        for q, ds in self.evs(args.defaults, st):
            kws = [(i, d) for i, d in enumerate(args.kw_defaults) if d is not None]
            for q2, ks in self.evs([d for _, d in kws], q):
                kd = tuple((args.kwonlyargs[i].arg, v) for (i, _), v in zip(kws, ks))
                fr = q2.frames[-1]
                # skip class bodies: their names are not visible in methods
                f = self.get(q2, fr)
                while f.code is not None and getattr(f.code, "isclass", False):
                    fr = f.parent
                    if fr is None:
                        break
                    f = self.get(q2, fr)
                if fr is None:
                    fr = self.get(q2, q2.frames[-1]).mod
                out.append((q2, Fn(code, fr, tuple(ds), kd)))
        return out

    def ex_ClassDef(self, s, st):
        out = []
        for q, bases in self.evs(s.bases, st):
            class CC:
                pass
            code = self.codes.get(id(s))
            if code is None:
                code = CC()
                code.isclass = True
                code.live = None
                code.globals, code.nonlocals, code.locals = set(), set(), set()
                code.name = s.name
                self.codes[id(s)] = code
            cur = self.get(q, q.frames[-1])
            r = q.new()
            q.heap[r] = Frame({}, q.frames[-1], code, cur.mod)
            q.frames = q.frames + (r,)
            for x, sig in self.block(s.body, q):
                x.frames = x.frames[:-1]
                if sig is not None:
                    out.append((x, sig))
                    continue
                attrs = dict(self.get(x, r).vars)
                c = self.alloc(x, ClsR(s.name, bases, attrs))
                cu = [(x, c)]
                for d in reversed(s.decorator_list):
                    nx = []
                    for y, f in cu:
                        for z, dec in self.ev(d, y):
                            nx.extend(self.models.decorate_class(z, dec, f))
                    cu = nx
                for y, f in cu:
                    self.models.finish_class(y, f)
                    self.assign_name(y, s.name, f)
                    out.append((y, None))
        return out

    def ex_Import(self, s, st):
        for al in s.names:
            m = self.models.import_module(st, al.name)
            if m is None:
                self.throw(st, "ModuleNotFoundError")
                return []
            if al.asname:
                self.assign_name(st, al.asname, m)
            else:
                self.assign_name(st, al.name.split(".")[0], self.models.import_module(st, al.name.split(".")[0]))
        return [(st, None)]

    def ex_ImportFrom(self, s, st):
        name = s.module or ""
        if s.level:
            fr = self.get(st, st.frames[-1])
            pk = self.get(st, fr.mod).vars["__package__"].v.split(".")
            pk = pk[:len(pk) - (s.level - 1)]
            name = ".".join(pk + ([s.module] if s.module else []))
        if name == "__future__":
            return [(st, None)]
        m = self.models.import_module(st, name)
        if m is None:
            self.throw(st, "ModuleNotFoundError")
            return []
        for al in s.names:
            if al.name == "*":
                if m.frame is None:
                    raise Imprecise("import * from %s" % name)
                for k, v in self.get(st, m.frame).vars.items():
                    if not k.startswith("_"):
                        self.assign_name(st, k, v)
                continue
            v = None
            if m.frame is not None:
                v = self.get(st, m.frame).vars.get(al.name)
                if v is None:
                    v = self.models.import_module(st, name + "." + al.name)
            else:
                v = self.models.std_attr(m, al.name)
            if v is None:
                self.throw(st, "ImportError")
                return []
            self.assign_name(st, al.asname or al.name, v)
        return [(st, None)]

    def ex_Global(self, s, st):
        return [(st, None)]

    ex_Nonlocal = ex_Global

    def ex_Assert(self, s, st):
        out = []
        for q, b in self.test(s.test, st):
            if b:
                out.append((q, None))
            else:
                self.throw(q, "AssertionError")
        return out

    def ex_Raise(self, s, st):
        if s.exc is None:
            raise Imprecise("bare raise")
        out = []
        for q, v in self.ev(s.exc, st):
            if isinstance(v, Bi):
                self.throw(q, v.name)
            elif isinstance(v, Ref) and isinstance(self.get(q, v.id), Obj):
                o = self.get(q, v.id)
                self.throw(q, self.models.exc_name(q, o.cls), obj=v)
            elif isinstance(v, Ref) and isinstance(self.get(q, v.id), ClsR):
                self.throw(q, self.models.exc_name(q, v.id))
            elif isinstance(v, Part) and isinstance(v.fn, Bi):
                self.throw(q, v.fn.name, *v.args)
            else:
                raise Imprecise("raise %r" % (v,))
        return out

    def ex_Try(self, s, st):
        out = []
        after = []
        for q, sig in self.block(s.body, st):
            if sig is not None and sig[0] == "exc":
                cur = [(q, sig[1])]
                handled = False
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        vs = list(self.ev(h.type, q))
                        if len(vs) != 1:
                            raise Imprecise("except clause")
                        q, tv = vs[0]
                        match = self.models.exc_match(q, sig[1], tv)
                    if match:
                        if h.name:
                            ev = self.alloc(q, Obj(None, {"args": Tup(sig[1].args)})) if sig[1].obj is None else sig[1].obj
                            self.assign_name(q, h.name, ev)
                        after.extend(self.block(h.body, q))
                        handled = True
                        break
                if not handled:
                    after.append((q, sig))
            elif sig is None and s.orelse:
                after.extend(self.block(s.orelse, q))
            else:
                after.append((q, sig))
        if not s.finalbody:
            return after
        for q, sig in after:
            for x, sig2 in self.block(s.finalbody, q):
                out.append((x, sig2 if sig2 is not None else sig))
        return out

    def ex_With(self, s, st):
        raise Imprecise("with statement")

    def ex_Match(self, s, st):
        out = []
        for q, subj in self.ev(s.subject, st):
            cur = [q]
            for case in s.cases:
                nxt = []
                for x in cur:
                    for y, b in self.pattern(case.pattern, x, subj):
                        if b and case.guard is not None:
                            for z, g in self.test(case.guard, y):
                                if g:
                                    out.extend(self.block(case.body, z))
                                else:
                                    nxt.append(z)
                        elif b:
                            out.extend(self.block(case.body, y))
                        else:
                            nxt.append(y)
                cur = nxt
            out.extend((x, None) for x in cur)
        return out

    def pattern(self, p, st, v):
        if isinstance(p, ast.MatchValue):
            out = []
            for q, c in self.ev(p.value, st):
                for q2, r in self.models.compare(q, "Eq", v, c):
                    out.extend(self.models.truth(q2, r))
            return out
        if isinstance(p, ast.MatchSingleton):
            out = []
            for q2, r in self.models.compare(st, "Is", v, K(p.value)):
                out.extend(self.models.truth(q2, r))
            return out
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for a in p.patterns:
                nxt = []
                for q in cur:
                    for x, b in self.pattern(a, q, v):
                        if b:
                            out.append((x, True))
                        else:
                            nxt.append(x)
                cur = nxt
            return out + [(q, False) for q in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.assign_name(st, p.name, v)
                return [(st, True)]
            out = []
            for q, b in self.pattern(p.pattern, st, v):
                if b:
                    self.assign_name(q, p.name, v)
                out.append((q, b))
            return out
        raise Imprecise("match pattern %s" % type(p).__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        f = self._ev.get(type(e))
        if f is None:
            raise Imprecise("expression %s at line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        return f(e, st)

    def evs(self, es, st):
        outs = [(st, [])]
        for e in es:
            nxt = []
            for q, vs in outs:
                for q2, v in self.ev(e, q):
                    nxt.append((q2, vs + [v]))
            outs = nxt
        return outs

    def ev_Constant(self, e, st):
        return [(st, K(e.value))]

    def ev_Name(self, e, st):
        v = self.lookup(st, e.id)
        if v is None:
            fr = self.get(st, st.frames[-1])
            self.throw(st, "UnboundLocalError" if fr.code is not None and e.id in fr.code.locals else "NameError",
                       K(e.id))
            return []
        return [(st, v)]

    def ev_NamedExpr(self, e, st):
        out = []
        for q, v in self.ev(e.value, st):
            self.assign_name(q, e.target.id, v)
            out.append((q, v))
        return out

    def ev_Tuple(self, e, st):
        return [(q, Tup(vs)) for q, vs in self.seq(e.elts, st)]

    def ev_List(self, e, st):
        out = []
        for q, ps in self.seq_pieces(e.elts, st):
            out.append((q, self.alloc(q, Lst(ps))))
        return out

    def ev_Set(self, e, st):
        out = []
        for q, vs in self.seq(e.elts, st):
            out.extend(self.models.mkset(q, [("E", v) for v in vs]))
        return out

    def seq_pieces(self, elts, st):
        outs = [(st, [])]
        for e in elts:
            nxt = []
            for q, ps in outs:
                if isinstance(e, ast.Starred):
                    for q2, v in self.ev(e.value, q):
                        for q3, more in self.models.pieces(q2, v):
                            nxt.append((q3, ps + list(more)))
                else:
                    for q2, v in self.ev(e, q):
                        nxt.append((q2, ps + [("E", v)]))
            outs = nxt
        return outs

    def seq(self, elts, st):
        out = []
        for q, ps in self.seq_pieces(elts, st):
            if any(p[0] == "P" for p in ps):
                raise Imprecise("starred abstract sequence")
            out.append((q, [p[1] for p in ps]))
        return out

    def ev_Dict(self, e, st):
        outs = [(st, {})]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for q, d in outs:
                if k is None:
                    for q2, m in self.ev(v, q):
                        md = self.models.dict_of(q2, m)
                        nxt.append((q2, {**d, **md}))
                else:
                    for q2, kv in self.ev(k, q):
                        for q3, vv in self.ev(v, q2):
                            for q4, c in self.models.concretize(q3, kv):
                                nxt.append((q4, {**d, c: vv}))
            outs = nxt
        return [(q, self.alloc(q, Dct(d))) for q, d in outs]

    def ev_BoolOp(self, e, st):
        stop = isinstance(e.op, ast.Or)
        cur, out = [st], []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for q in cur:
                for q2, v in self.ev(x, q):
                    if last:
                        out.append((q2, v))
                        continue
                    for q3, b in self.models.truth(q2, v):
                        if b == stop:
                            out.append((q3, v))
                        else:
                            nxt.append(q3)
            cur = nxt
        return self.merge_same(out)

    def merge_same(self, outs):
        """Put together results that differ only in which words of one instance they are for."""
        if len(outs) < 2 or len(outs) > 8:
            return outs
        res = [outs[0]]
        for q, v in outs[1:]:
            for i, (p, w) in enumerate(res):
                m = self.try_merge(p, w, q, v)
                if m is not None:
                    res[i] = m
                    break
            else:
                res.append((q, v))
        return res

    def try_merge(self, p, w, q, v):
        if p.heap.keys() != q.heap.keys() or p.frames != q.frames or p.nums != q.nums or p.ins.keys() != q.ins.keys():
            return None
        if p.facts != q.facts or p.seen != q.seen or p.rng != q.rng:
            return None
        for k, r in p.heap.items():
            if q.heap[k] is not r:
                return None
        di = [i for i in p.ins if p.ins[i] != q.ins[i]]
        if len(di) > 1:
            return None
        if not di:
            if w != v:
                return None
            p.fl = p.fl | q.fl
            p.nx = max(p.nx, q.nx)
            return p, w
        i = di[0]
        u, ma = p.ins[i]
        _, mb = q.ins[i]
        if ma & mb:
            if w != v:
                return None
            nv = w
        elif w == v:
            nv = w
        else:
            tab = [None] * len(u.words)
            for x, m in ((w, ma), (v, mb)):
                if type(x) is K:
                    for b in bits(m):
                        tab[b] = x.v
                elif type(x) is Rel and x.inst == i:
                    for b in bits(m):
                        tab[b] = x.tab[b]
                else:
                    return None
            nv = Rel(i, intern_tab(tab))
        s = p
        s.ins[i] = (u, ma | mb)
        s.fl = p.fl | q.fl
        s.nx = max(p.nx, q.nx)
        return s, nv

    def ev_UnaryOp(self, e, st):
        out = []
        for q, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.extend(self.models.not_(q, v))
            elif isinstance(e.op, ast.USub):
                out.extend(self.models.binop(q, "Sub", K(0), v))
            elif isinstance(e.op, ast.UAdd):
                out.append((q, v))
            else:
                raise Imprecise("unary operator")
        return out

    def ev_BinOp(self, e, st):
        out = []
        for q, (a, b) in self.evs([e.left, e.right], st):
            out.extend(self.models.binop(q, type(e.op).__name__, a, b))
        return out

    def ev_Compare(self, e, st, split=False):
        if len(e.ops) == 1:
            out = []
            for q, (a, b) in self.evs([e.left, e.comparators[0]], st):
                out.extend(self.models.compare(q, type(e.ops[0]).__name__, a, b))
            return out
        outs = []
        cur = list(self.ev(e.left, st))
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for q, a in cur:
                for q2, b in self.ev(c, q):
                    for q3, r in self.models.compare(q2, type(op).__name__, a, b):
                        if i == len(e.ops) - 1:
                            outs.append((q3, r))
                            continue
                        for q4, t in self.models.truth(q3, r):
                            if t:
                                nxt.append((q4, b))
                            else:
                                outs.append((q4, FALSE))
            cur = nxt
        return outs

    def ev_IfExp(self, e, st):
        out = []
        for q, b in self.test(e.test, st):
            out.extend(self.ev(e.body if b else e.orelse, q))
        return self.merge_same(out)

    def ev_Lambda(self, e, st):
        return self.mkfn(self.code_of(e, "<lambda>", st), e.args, st)

    def ev_JoinedStr(self, e, st):
        outs = [(st, [])]
        for x in e.values:
            nxt = []
            for q, ps in outs:
                if isinstance(x, ast.Constant):
                    nxt.append((q, ps + [("E", K(x.value))]))
                    continue
                for q2, v in self.ev(x.value, q):
                    if x.conversion == 114:
                        v2s = [(q2, Sym("repr"))] if not q2.const(v)[0] else [(q2, K(repr(q2.const(v)[1])))]
                    elif x.format_spec is not None:
                        ok, c = q2.const(v)
                        sp = list(self.ev(x.format_spec, q2))
                        if not ok or len(sp) != 1 or not isinstance(sp[0][1], K):
                            raise Imprecise("format spec")
                        v2s = [(q2, K(format(c, sp[0][1].v)))]
                    else:
                        v2s = self.models.to_str(q2, v)
                    for q3, s in v2s:
                        nxt.append((q3, ps + [("E", s)]))
            outs = nxt
        return [(q, self.models.mkS(q, ps)) for q, ps in outs]

    def ev_Attribute(self, e, st):
        out = []
        for q, o in self.ev(e.value, st):
            out.extend(self.getattr(q, o, e.attr))
        return out

    def cls_lookup(self, st, cid, name):
        rec = self.get(st, cid)
        if name in rec.attrs:
            return rec.attrs[name]
        for b in rec.bases:
            if isinstance(b, Ref):
                v = self.cls_lookup(st, b.id, name)
                if v is not None:
                    return v
        return None

    def getattr(self, st, o, name):
        if isinstance(o, Ref):
            rec = self.get(st, o.id)
            if isinstance(rec, Obj):
                if name in rec.attrs:
                    return [(st, rec.attrs[name])]
                if rec.cls is not None:
                    v = self.cls_lookup(st, rec.cls, name)
                    if v is not None:
                        return self.bind(st, v, o, Ref(rec.cls))
                    if name == "__class__":
                        return [(st, Ref(rec.cls))]
                    ga = self.cls_lookup(st, rec.cls, "__getattr__")
                    if ga is not None:
                        return self.call(st, Bound(ga, o), [K(name)], {})
                    bi = self.models.inherited(st, rec, o, name)
                    if bi is not None:
                        return [(st, bi)]
                self.throw(st, "AttributeError", K(name))
                return []
            if isinstance(rec, ClsR):
                v = self.cls_lookup(st, o.id, name)
                if v is None:
                    if name == "__name__":
                        return [(st, K(rec.name))]
                    self.throw(st, "AttributeError", K(name))
                    return []
                if isinstance(v, Part) and v.fn == Bi("classmethod"):
                    return [(st, Bound(v.args[0], o))]
                if isinstance(v, Part) and v.fn == Bi("staticmethod"):
                    return [(st, v.args[0])]
                return [(st, v)]
            return self.models.method(st, o, name)
        if isinstance(o, Mod):
            if o.frame is not None:
                v = self.get(st, o.frame).vars.get(name)
                if v is None:
                    v = self.models.import_module(st, o.name + "." + name) if self.source(o.name + "." + name) else None
                if v is None:
                    self.throw(st, "AttributeError", K(name))
                    return []
                return [(st, v)]
            v = self.models.std_attr(o, name)
            if v is None:
                raise Imprecise("%s.%s" % (o.name, name))
            return [(st, v)]
        if isinstance(o, Super):
            rec = self.get(st, o.cls)
            for b in rec.bases:
                if isinstance(b, Ref):
                    v = self.cls_lookup(st, b.id, name)
                    if v is not None:
                        return self.bind(st, v, o.obj, b)
            if name == "__init__":
                return [(st, Bi("object.__init__"))]
            raise Imprecise("super().%s" % name)
        if isinstance(o, Fn):
            if name == "__name__":
                return [(st, K(o.code.name))]
            if name in ("cache_clear",):
                return [(st, Bi("noop"))]
            if name == "__doc__":
                return [(st, Sym("doc"))]
        return self.models.method(st, o, name)

    def bind(self, st, v, o, cls):
        if isinstance(v, Fn):
            return [(st, Bound(v, o))]
        if isinstance(v, Part) and isinstance(v.fn, Bi):
            if v.fn.name == "property":
                return self.call(st, v.args[0], [o], {})
            if v.fn.name == "cached_property":
                return self.call(st, v.args[0], [o], {})
            if v.fn.name == "staticmethod":
                return [(st, v.args[0])]
            if v.fn.name == "classmethod":
                return [(st, Bound(v.args[0], cls))]
        return [(st, v)]

    def ev_Subscript(self, e, st):
        out = []
        for q, o in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                if e.slice.step is not None:
                    for q2, s in self.ev(e.slice.step, q):
                        for q3, (lo, hi) in self.slice_bounds(e.slice, q2):
                            out.extend(self.models.slice_step(q3, o, lo, hi, s))
                    continue
                for q2, (lo, hi) in self.slice_bounds(e.slice, q):
                    out.extend(self.models.slice(q2, o, lo, hi))
            else:
                for q2, i in self.ev(e.slice, q):
                    out.extend(self.models.subscript(q2, o, i))
        return out

    def ev_Starred(self, e, st):
        raise Imprecise("starred expression")

    def ev_Yield(self, e, st):
        out = []
        for q, v in (self.ev(e.value, st) if e.value is not None else [(st, NONE)]):
            y = self.lookup(q, "$yield")
            rec = self.get(q, y.id)
            self.set(q, y.id, Lst(rec.pieces + (("E", v),), rec.kind))
            out.append((q, NONE))
        return out

    def ev_YieldFrom(self, e, st):
        out = []
        for q, v in self.ev(e.value, st):
            y = self.lookup(q, "$yield")
            for q2 in self.models.list_extend(q, y, v):
                out.append((q2, NONE))
        return out

    # -- comprehensions: loops over a hidden list
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self.comp(e, st, "iter")

    def ev_SetComp(self, e, st):
        out = []
        for q, r in self.comp(e, st, "list"):
            out.extend(self.models.mkset(q, self.get(q, r.id).pieces))
        return out

    class _Comp:
        live = None
        iscomp = True
        globals = nonlocals = frozenset()
        name = "<comp>"

    def ev_DictComp(self, e, st):
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        ast.fix_missing_locations(pair)
        key = ("dc", id(e))
        node = self.codes.get(key)
        if node is None:
            node = ast.copy_location(ast.ListComp(pair, e.generators), e)
            self.codes[key] = node
        out = []
        for q, r in self.comp(node, st, "list"):
            out.extend(self.models.mkdict(q, self.get(q, r.id).pieces))
        return out

    def comp(self, e, st, kind):
        code = self.codes.get(("comp", id(e)))
        if code is None:
            code = self._Comp()
            code.locals = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            self.codes[("comp", id(e))] = code
        outs = []
        for q, it in self.ev(e.generators[0].iter, st):
            r = self.alloc(q, Lst((), kind))
            cur = self.get(q, q.frames[-1])
            f = q.new()
            q.heap[f] = Frame({"$out": r}, q.frames[-1], code, cur.mod)
            q.frames = q.frames + (f,)
            for x, sig in self.comp_loop(e, 0, q, it, r):
                if sig is not None and sig[0] == "exc":
                    x.frames = x.frames[:-1]
                    self.exc.append((x, sig[1]))
                    continue
                r2 = self.get(x, x.frames[-1]).vars["$out"]
                x.frames = x.frames[:-1]
                outs.append((x, r2))
        return outs

    def comp_loop(self, e, i, st, it, r):
        g = e.generators[i]

        def body(q, v):
            res = []
            self.exc, saved = [], self.exc
            for x in self.assign_comp(g.target, q, v):
                cur = [x]
                for c in g.ifs:
                    nxt = []
                    for y in cur:
                        for z, b in self.test(c, y):
                            if b:
                                nxt.append(z)
                            else:
                                res.append((z, None))
                    cur = nxt
                for y in cur:
                    if i + 1 < len(e.generators):
                        for z, it2 in self.ev(e.generators[i + 1].iter, y):
                            for w, sig in self.comp_loop(e, i + 1, z, it2, r):
                                res.append((w, sig))
                    else:
                        for z, v2 in self.ev(e.elt, y):
                            o = self.get(z, z.frames[-1]).vars["$out"]
                            rec = self.get(z, o.id)
                            self.set(z, o.id, Lst(rec.pieces + (("E", v2),), rec.kind))
                            res.append((z, None))
            for y, _ in res:
                leave(y, None)
            res.extend((y, ("exc", x)) for y, x in self.exc)
            self.exc = saved
            return res
        out = []

        def leave(q, sig):
            fr = q.frames[-1]
            rec = q.heap.get(fr)
            if rec is None:
                return
            drop = set()
            for j in range(i, len(e.generators)):
                drop |= {n.id for n in ast.walk(e.generators[j].target) if isinstance(n, ast.Name)}
            if any(n in drop for n in rec.vars):
                q.heap[fr] = Frame({n: v for n, v in rec.vars.items() if n not in drop},
                                   rec.parent, rec.code, rec.mod)
        for q, sig in self.iterate(st, it, body, ("comp", id(e), i), leave):
            out.append((q, None if sig in (("done",), ("brk",)) else sig))
        return out

    def assign_comp(self, t, st, v):
        if isinstance(t, ast.Name):
            self.set_local(st, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for q, vs in self.models.unpack(st, v, len(t.elts), None):
                cur = [q]
                for x, y in zip(t.elts, vs):
                    cur = [z for c in cur for z in self.assign_comp(x, c, y)]
                out.extend(cur)
            return out
        raise Imprecise("comprehension target")

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.get(st, st.frames[-1])
            selfv = fr.vars.get(fr.code.params[0]) if fr.code is not None and getattr(fr.code, "params", None) else None
            cls = getattr(fr.code, "owner", None)
            if selfv is None or cls is None:
                raise Imprecise("super()")
            return [(st, Super(cls, selfv))]
        out = []
        for q, f in self.ev(e.func, st):
            for q2, ps in self.seq_pieces(e.args, q):
                if any(p[0] == "P" for p in ps):
                    raise Imprecise("starred abstract argument")
                args = [p[1] for p in ps]
                kws = [(q2, {})]
                for k in e.keywords:
                    nxt = []
                    for x, d in kws:
                        for y, v in self.ev(k.value, x):
                            if k.arg is None:
                                dd = self.models.dict_of(y, v)
                                nxt.append((y, {**d, **dd}))
                            else:
                                nxt.append((y, {**d, k.arg: v}))
                    kws = nxt
                for q3, kw in kws:
                    out.extend(self.call(q3, f, args, kw))
        return out

    def call(self, st, f, args, kw):
        if isinstance(f, Fn):
            return self.call_user(st, f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_user(st, f.fn, [f.self_] + list(args), kw)
            return self.call(st, f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Ref):
            rec = self.get(st, f.id)
            if isinstance(rec, ClsR):
                return self.models.instantiate(st, f, rec, args, kw)
            if isinstance(rec, Obj):
                c = self.cls_lookup(st, rec.cls, "__call__") if rec.cls is not None else None
                if c is not None:
                    return self.call(st, Bound(c, f), args, kw)
        if isinstance(f, Part) and not (isinstance(f.fn, Bi) and f.fn.name in ("property", "staticmethod", "classmethod")):
            return self.models.call_part(st, f, args, kw)
        return self.models.call(st, f, args, kw)

    def bindargs(self, st, f, args, kw):
        """Parameter values, or None (and a TypeError) when the call does not fit."""
        code = f.code
        vs = {}
        n = len(code.params)
        if len(args) > n and code.vararg is None:
            self.throw(st, "TypeError")
            return None
        for p, v in zip(code.params, args):
            vs[p] = v
        if code.vararg is not None:
            vs[code.vararg] = Tup(args[n:])
        kw = dict(kw)
        extra = {}
        for k, v in kw.items():
            if k in code.params or k in code.kwonly:
                if k in vs:
                    self.throw(st, "TypeError")
                    return None
                vs[k] = v
            else:
                extra[k] = v
        if extra and code.kwarg is None:
            self.throw(st, "TypeError")
            return None
        nd = len(f.defaults)
        for p, v in zip(code.params[n - nd:], f.defaults):
            vs.setdefault(p, v)
        for p, v in f.kwdefaults:
            vs.setdefault(p, v)
        if code.kwarg is not None:
            vs[code.kwarg] = self.alloc(st, Dct(extra))
        for p in code.params + code.kwonly:
            if p not in vs:
                self.throw(st, "TypeError")
                return None
        return vs

    def call_user(self, st, f, args, kw):
        self.stats["calls"] += 1
        vs = self.bindargs(st, f, args, kw)
        if vs is None:
            return []
        code = f.code
        self.stats["functions"].add((code.modname, code.name))
        if self.concrete:
            return self.call_live(st, f, vs)
        if not code.isgen and not self.loading:
            res = self.call_pw(st, f, vs)
            if res is not None:
                return res
            res = summary.call(self, st, f, vs)
            if res is not None:
                return res
        return self.call_body(st, f, vs)

    def call_live(self, st, f, vs):
        """A call while calls are replayed on constants; memo caches remember."""
        if self.on_call is not None:
            self.on_call(st, f)
        if not f.cached:
            return self.call_body(st, f, vs)
        key = None
        parts = [str(id(f.code))]
        for n in sorted(vs):
            ok, c = st.const(vs[n])
            parts.append(repr((n, c) if ok else (n, vs[n].id) if type(vs[n]) is Ref else object()))
        key = "|".join(parts)
        rec = self.get(st, self.cache_ref)
        if key in rec.d:
            return [(st, rec.d[key])]
        outs = self.call_body(st, f, vs)
        if len(outs) == 1:
            q, v = outs[0]
            rec = self.get(q, self.cache_ref)
            q.heap[self.cache_ref] = Dct({**rec.d, key: v})
        return outs

    def call_pw(self, st, f, vs):
        """Constant propagation through a call: all arguments constants, or functions of one word."""
        code = f.code
        inst, names = None, []
        for n, v in vs.items():
            t = type(v)
            if t is Rel:
                if st.const(v)[0]:
                    continue
                if inst is not None and inst != v.inst:
                    return None
                inst = v.inst
            elif t is Tup:
                if not st.const(v)[0]:
                    return None
            elif t in (N, IS, Pos, S):
                if not (t is S and not v.pieces):
                    return None
            elif t is Ref:
                rec = self.get(st, v.id)
                if isinstance(rec, Lst) and any(p[0] == "P" or not isinstance(p[1], K) for p in rec.pieces):
                    return None
        if inst is None:
            if code.nopw:
                return None
            kvs = self.kvars(st, vs)
            r = self.pure(st, f, kvs)
            if r is None:
                return None
            if r[0] == "exc":
                self.exc.append((st, r[1]))
                return []
            return [(st, self.carry(st, vs, r[1]))]
        if code.nopw:
            return None
        u, m = st.ins[inst]
        tab = [None] * len(u.words)
        excs = {}
        good = 0
        for w in bits(m):
            kvs = {n: (K(v.tab[w]) if type(v) is Rel and v.inst == inst else v) for n, v in vs.items()}
            kvs = self.kvars(st, kvs)
            r = self.pure(st, f, kvs)
            if r is None:
                return None
            if r[0] == "exc":
                excs.setdefault((r[1].cls, r[1].where), [r[1], 0])[1] |= 1 << w
            else:
                tab[w] = r[1]
                good |= 1 << w
        out = []
        for x, mask in excs.values():
            q = st.copy()
            q.ins[inst] = (u, mask)
            self.exc.append((q, x))
        if good:
            st.ins[inst] = (u, good)
            out.append((st, self.mkrel(st, inst, tab)))
        return out

    def kvars(self, st, vs):
        out = {}
        for n, v in vs.items():
            if type(v) is Rel or type(v) is Tup:
                ok, c = st.const(v)
                if ok:
                    v = K(c)
            out[n] = v
        return out

    def carry(self, st, vs, c):
        """The constant result c of a call; kept tied to a one-word instance when it is a string made from it."""
        if isinstance(c, str) and not isinstance(c, bool):
            for v in vs.values():
                if type(v) is Rel:
                    u, m = st.ins[v.inst]
                    tab = [None] * len(u.words)
                    for w in bits(m):
                        tab[w] = c
                    return Rel(v.inst, intern_tab(tab))
        return K(c)

    def pure(self, st, f, vs):
        """Result of a call on constants, if it is one constant (or one exception) and has no effect."""
        code = f.code
        try:
            key = (id(code), f.frame, tuple(vs.items()))
            ents = self.memo.get(key)
        except TypeError:
            return None
        if ents:
            for reads, res in ents:
                for r, rec in reads:
                    if (st.heap.get(r) or self.base.get(r)) is not rec:
                        break
                else:
                    if self.logs:
                        for r, _ in reads:
                            self.get(st, r)
                    return res
        if len(self.logs) > 40:
            return None
        q = st.copy()
        q.ins, q.nums, q.pend, q.gh = {}, {}, {}, {}
        lg = (q.nx, {}, [False])
        self.logs.append(lg)
        saved, self.exc = self.exc, []
        nev = len(self.events)
        res = None
        try:
            outs = self.call_body(q, f, vs)
            if not lg[2][0]:
                if len(outs) == 1 and not self.exc:
                    x, v = outs[0]
                    ok, c = x.const(v)
                    if ok and not isinstance(c, tuple) and x.fl == st.fl:
                        res = ("val", c)
                    elif ok and isinstance(c, tuple) and x.fl == st.fl:
                        res = ("val", c)
                elif not outs and len(self.exc) == 1:
                    res = ("exc", self.exc[0][1])
                    if res[1].obj is not None:
                        res = None
        except (KeyError, NeedPW, NotPure):
            res = None
        finally:
            self.logs.pop()
            self.exc = saved
        if res is None:
            del self.events[nev:]
            code.impure += 1
            if code.impure >= 4 and not code.waspure:
                code.nopw = True
            self.memo.setdefault(key, []).append((tuple(lg[1].items()), None)) if len(self.memo.get(key, ())) < 4 else None
            return None
        code.waspure = True
        ents = self.memo.setdefault(key, [])
        if len(ents) > 6:
            ents.pop(0)
        ents.append((tuple(lg[1].items()), res))
        return res

    def call_body(self, st, f, vs):
        code = f.code
        if self.depth > 60:
            raise Imprecise("recursion in %s" % code.name)
        self.depth += 1
        saved_line = self.line
        nloops = len(self.loops)
        try:
            pf = self.get(st, f.frame)
            r = st.new()
            if code.isgen:
                y = self.alloc(st, Lst((), "iter"))
                vs = {**vs, "$yield": y}
            st.heap[r] = Frame(dict(vs), f.frame, code, pf.mod)
            st.frames = st.frames + (r,)
            if isinstance(code.node, ast.Lambda):
                outs = [(q, ("ret", v)) for q, v in self.ev(code.node.body, st)]
            else:
                outs = self.block(code.body, st)
            res = []
            for q, sig in outs:
                yv = self.get(q, q.frames[-1]).vars.get("$yield") if code.isgen else None
                q.frames = q.frames[:-1]
                if sig is None or sig[0] == "ret":
                    v = NONE if sig is None else sig[1]
                    if yv is not None:
                        v = yv
                    res.append((q, v))
                elif sig[0] == "exc":
                    self.exc.append((q, sig[1]))
                else:
                    raise Imprecise("signal %r leaves a function" % (sig,))
            if len(res) > 1:
                res = self.merge_outs(res, r)
            if f.cached:
                for q, v in res:
                    self.models.mark_shared(q, v)
            return res
        finally:
            self.depth -= 1
            self.line = saved_line

    def merge_outs(self, outs, wm):
        from .loops import Canon
        table, order = {}, []
        for q, v in outs:
            c = Canon(self, q, wm, None)
            key, q2, v2 = c.run(v)
            ent = table.get(key)
            if ent is None:
                table[key] = [(q2, v2)]
                order.append(key)
                continue
            for i, (p, w) in enumerate(ent):
                if c.join(p, q2, hull=False):
                    break
            else:
                ent.append((q2, v2))
        return [x for k in order for x in table[k]]

    # ------------------------------------------------------------------ loops
    def iterate(self, st, it, body, tag, leave=None):
        """Run body(state, element) over an iterable; exits as (state, signal)."""
        from .loops import iterate
        return iterate(self, st, it, body, tag, leave)

    def solve(self, st, head, tag, chain=False, leave=None):
        from .loops import solve
        return solve(self, st, head, tag, chain, leave=leave)


def st_frame(ip, st):
    return st.heap.get(st.frames[-1]) or ip.base[st.frames[-1]]
