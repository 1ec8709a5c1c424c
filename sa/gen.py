"""Provenance analysis of the table generator.

The script is interpreted abstractly: the names of files are constants (those in the source directory), what the files
hold is not known; it is tracked by where it comes from (the raw or the supplementary file of which locale, which part
of it), in what order entries reach a table, and whether that order is sorted.  Branches on unknown data are joined.
Two locales are taken one after the other, so anything carried from one to the next shows in the second.
"""
import ast
import os
import posixpath
import re
import time
from collections import namedtuple

ROOT = "/R"
SCRIPT = ROOT + "/number_parser_scripts/write_complete_language_data.py"
RAW = ROOT + "/number_parser_data/raw_cldr_translation_data"
SUPP = ROOT + "/number_parser_data/supplementary_translation_data"
DATA = ROOT + "/number_parser/data"
UTF8 = {"utf8", "utf_8", "utf8_sig", "utf_8_sig"}


class Unk(Exception):
    """Something the analysis does not follow."""


class Raised(Exception):
    def __init__(self, cls):
        self.cls = cls


K = namedtuple("K", "v")                      # a constant
V = namedtuple("V", "tags")                   # unknown scalar made of data with these origins
Mix = namedtuple("Mix", "vs")                 # one of these
T = namedtuple("T", "vs")                     # tuple
Ref = namedtuple("Ref", "a")
J = namedtuple("J", "kind file path")         # part of a JSON file
Coll = namedtuple("Coll", "layers order kind")  # entries of a table or list being gone through
E = namedtuple("E", "coll part")              # one of them
Fun = namedtuple("Fun", "node env defaults")
Ext = namedtuple("Ext", "name")
Meth = namedtuple("Meth", "obj name")
File = namedtuple("File", "path mode")
Dump = namedtuple("Dump", "items")            # text holding tables; items: ("table", snapshot) or tags
Part = namedtuple("Part", "fn args kw")
P = namedtuple("P", "v")                      # pathlib path

D = namedtuple("D", "ents layers")            # dict: known keys, layers of unknown ones
L = namedtuple("L", "items layers order")     # list: known items, or layers
Cell = namedtuple("Cell", "items")            # set
Fr = namedtuple("Fr", "vars parent glob")     # frame; vars: tuple of (name, value)
Obj = namedtuple("Obj", "cls attrs")

MUT = {}


def layer(mode, src):
    return (mode, src)


def add_layer(ls, l):
    """Layers with one more on top; of entries that may or may not be written only the origin and the order count."""
    if l[0] in ("some", "absent") and l[1][0] != "tags":
        l = (l[0], ("tags", src_tags(l[1])))
    if l[0] == "all" and l[1][0] == "coll" and l[1][1].layers and all(m == "some" for m, _ in l[1][1].layers) and \
            not (isinstance(l[1][1].order, tuple)):
        for x in l[1][1].layers:
            ls = add_layer(ls, x)
        return ls
    if ls and ls[-1] == l:
        return ls
    i = len(ls)
    while i and ls[i - 1][0] == l[0] == "some":
        i -= 1
        if ls[i] == l:
            return ls[:i] + ls[i + 1:] + (l,)
    return ls + (l,)


def weaken(ls, guard):
    out = ()
    for m, s in ls:
        if m in ("elem", "elem?"):
            m = "elem-absent" if guard else "elem?"
        elif m == "all":
            m = "absent" if guard else "some"
        out = add_layer(out, (m, s))
    return out


def tags_of(x):
    """Origins of the data in a value."""
    if isinstance(x, V):
        return x.tags
    if isinstance(x, K) or x is None:
        return frozenset()
    if isinstance(x, J):
        return frozenset([(x.kind, x.file)])
    if isinstance(x, E):
        return tags_of(x.coll)
    if isinstance(x, Coll):
        t = layer_tags(x.layers)
        return t | frozenset([("order", x.order)]) if x.order in ("hash", "listing") else t
    if isinstance(x, (T, Mix)):
        return frozenset().union(*[tags_of(y) for y in x.vs]) if x.vs else frozenset()
    if isinstance(x, Dump):
        return frozenset().union(*[snap_tags(y) if k == "table" else y for k, y in x.items])
    return frozenset()


def layer_tags(ls):
    t = frozenset()
    for m, s in ls:
        t |= src_tags(s)
    return t


def src_tags(s):
    if s[0] == "tags":
        return s[1]
    if s[0] == "J":
        return frozenset([(s[1], s[2])])
    return tags_of(s[1])


def flat(ls):
    """Primitive layers (mode, origin tags or ('J', ...)) in the order they were laid."""
    out = []
    for m, s in ls:
        if s[0] == "coll":
            for m2, s2 in flat(s[1].layers):
                out.append((m2 if m == "all" else m if m2 == "all" else m2 if m == "some" else m, s2))
        else:
            out.append((m, s))
    return out


def snap_tags(s):
    k = s[0]
    if k == "dict":
        t = layer_tags(s[2])
        for _, v, must in s[1]:
            t |= snap_tags(v)
        return t
    if k == "list":
        t = layer_tags(s[2])
        for v in s[1]:
            t |= snap_tags(v)
        if s[3] in ("hash", "listing"):
            t |= frozenset([("order", s[3])])
        return t
    return tags_of(s[1])


class St:
    def __init__(self):
        self.h = {}
        self.out = {}            # path: (contents, must)
        self.frame = None

    def copy(self):
        q = St()
        q.h, q.out, q.frame = dict(self.h), dict(self.out), self.frame
        return q

    def same(self, o):
        return self.h == o.h and self.out == o.out


def join_val(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return a if b is None else b
    if isinstance(a, (K, V)) and isinstance(b, (K, V)) and (isinstance(a, V) or isinstance(b, V)):
        return V(tags_of(a) | tags_of(b))
    if isinstance(a, Dump) and isinstance(b, Dump):
        return Dump(a.items + tuple(x for x in b.items if x not in a.items))
    if isinstance(a, T) and isinstance(b, T) and len(a.vs) == len(b.vs):
        return T(tuple(join_val(x, y) for x, y in zip(a.vs, b.vs)))
    vs = []
    for x in (a, b):
        for y in x.vs if isinstance(x, Mix) else (x,):
            if y not in vs:
                vs.append(y)
    sc = [x for x in vs if isinstance(x, (K, V, E, J))]
    if len(sc) == len(vs) and (len(vs) > 4 or any(isinstance(x, (V, E)) for x in vs)):
        return V(frozenset().union(*[tags_of(x) for x in vs]))
    if len(vs) > 6:
        raise Unk("too many alternatives")
    return Mix(tuple(vs))


def join_layers(a, b, guard):
    if a == b:
        return a
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    out = a[:n]
    for l in weaken(a[n:], guard) + weaken(b[n:], guard):
        if l not in out[n:]:
            out = add_layer(out, l)
    return out


def join_obj(a, b, guard):
    if a == b:
        return a
    if type(a) is not type(b):
        raise Unk("join of different objects")
    if isinstance(a, Fr):
        x, y = dict(a.vars), dict(b.vars)
        return Fr(tuple(sorted(((k, join_val(x.get(k), y.get(k))) for k in set(x) | set(y)), key=lambda p: p[0])),
                  a.parent, a.glob)
    if isinstance(a, D):
        x = {k: (v, m) for k, v, m in a.ents}
        y = {k: (v, m) for k, v, m in b.ents}
        es = []
        for k in list(x) + [k for k in y if k not in x]:
            if k in x and k in y:
                es.append((k, join_val(x[k][0], y[k][0]), x[k][1] and y[k][1]))
            else:
                es.append((k, (x.get(k) or y.get(k))[0], False))
        return D(tuple(es), join_layers(a.layers, b.layers, guard))
    if isinstance(a, L):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return L(tuple(join_val(p, q) for p, q in zip(a.items, b.items)), (), a.order if a.order == b.order else None)
        la, lb = as_layers(a), as_layers(b)
        return L(None, join_layers(la, lb, guard), a.order if a.order == b.order else None)
    if isinstance(a, Cell):
        return Cell(tuple(a.items) + tuple(x for x in b.items if x not in a.items))
    if isinstance(a, Obj):
        x, y = dict(a.attrs), dict(b.attrs)
        return Obj(a.cls, tuple(sorted(((k, join_val(x.get(k), y.get(k))) for k in set(x) | set(y)), key=lambda p: p[0])))
    raise Unk("join")


def as_layers(l):
    if l.items is None:
        return l.layers
    out = ()
    for x in l.items:
        out = add_layer(out, ("some", ("tags", tags_of(x))))
    return out


def join(a, b, guard=False):
    if a is None:
        return b
    if b is None:
        return a
    q = St()
    q.frame = a.frame
    for k in a.h:
        q.h[k] = join_obj(a.h[k], b.h[k], guard) if k in b.h else a.h[k]
    for k in b.h:
        if k not in a.h:
            q.h[k] = b.h[k]
    for k in set(a.out) | set(b.out):
        x, y = a.out.get(k), b.out.get(k)
        if x and y:
            q.out[k] = (x[0] + tuple(z for z in y[0] if z not in x[0]), x[1] and y[1])
        else:
            q.out[k] = ((x or y)[0], False)
    return q


class Gen:
    def __init__(self, repo, files, missing, schema):
        """files: names the source directory lists, in this order; missing: locales without spell-out rules."""
        self.repo, self.files, self.missing, self.schema = repo, files, missing, schema
        self.notes = {}            # findings by (line, text)
        self.path = os.path.join(repo, "number_parser_scripts", "write_complete_language_data.py")
        with open(self.path, encoding="utf-8") as f:
            self.tree = ast.parse(f.read())
        self.cwd = K("/CWD/a/b")
        self.line = 0
        self.calls = 0
        self.col = 0
        self.stack = ()
        self.fns = set()
        self.steps = 0
        self.listed = None         # how the source directory was listed

    # -------------------------------------------------------------- running
    def run(self):
        st = St()
        g = self.new(st, ("globals",), Fr((("__name__", K("__main__")), ("__file__", K(SCRIPT))), None, None))
        st.frame = g.a
        o = self.block(self.tree.body, st)
        st = o.get("next")
        if st is None:
            raise Unk("the script does not come to its end")
        return st

    def note(self, what, text):
        self.notes.setdefault((what, self.line), text)

    def new(self, st, key, obj):
        a = ("@", self.stack, self.line) + key
        st.h[a] = obj
        return Ref(a)

    # -------------------------------------------------------------- statements
    def block(self, body, st):
        """{'next': state, 'break': state, 'continue': state, 'return': (state, value)}"""
        out = {"next": st}
        for s in body:
            cur = out.get("next")
            if cur is None:
                break
            r = self.stmt(s, cur)
            out["next"] = r.pop("next", None)
            self.merge(out, r)
        return out

    def merge(self, out, r, guard=False):
        for k, v in r.items():
            if v is None:
                continue
            if k == "return":
                if out.get(k) is None:
                    out[k] = v
                else:
                    out[k] = (join(out[k][0], v[0], guard), join_val(out[k][1], v[1]))
            else:
                out[k] = join(out.get(k), v, guard)

    def stmt(self, s, st):
        self.line = s.lineno
        self.steps += 1
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unk("statement %s at line %d" % (type(s).__name__, s.lineno))
        return m(s, st)

    def s_Pass(self, s, st):
        return {"next": st}

    s_Global = s_Nonlocal = s_Assert = s_Pass

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return {"next": st}

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                self.bind(st, a.asname, Ext(a.name))
            else:
                self.bind(st, a.name.split(".")[0], Ext(a.name.split(".")[0]))
        return {"next": st}

    def s_ImportFrom(self, s, st):
        for a in s.names:
            self.bind(st, a.asname or a.name, Ext("%s.%s" % (s.module, a.name)))
        return {"next": st}

    def s_FunctionDef(self, s, st):
        for d in s.decorator_list:
            v = self.ev(d, st)
            if not (isinstance(v, (Ext, Part)) and ("lru_cache" in str(v) or "cache" in str(v))):
                raise Unk("decorator at line %d" % s.lineno)
            MUT[id(s)] = True
        ds = tuple(self.ev(d, st) for d in s.args.defaults)
        kd = tuple(self.ev(d, st) if d is not None else None for d in s.args.kw_defaults)
        self.bind(st, s.name, Fun(s, st.frame, ds + (("kw",) + kd,)))
        return {"next": st}

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else K(None)
        return {"return": (st, v)}

    def s_Break(self, s, st):
        return {"break": st}

    def s_Continue(self, s, st):
        return {"continue": st}

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, st, v)
        return {"next": st}

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, st, self.ev(s.value, st))
        return {"next": st}

    def s_AugAssign(self, s, st):
        t = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
        a = self.ev(t, st)
        b = self.ev(s.value, st)
        if isinstance(s.op, ast.BitOr) and isinstance(a, Ref) and isinstance(st.h[a.a], D):
            self.update(st, a, b)
            return {"next": st}
        if isinstance(s.op, ast.Add) and isinstance(a, Ref):
            self.extend(st, a, b)
            return {"next": st}
        self.assign(s.target, st, self.binop(s.op, a, b, st))
        return {"next": st}

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, st), self.ev(t.slice, st)
                x = st.h.get(o.a) if isinstance(o, Ref) else None
                if isinstance(x, D) and isinstance(k, K):
                    st.h[o.a] = D(tuple(e for e in x.ents if e[0] != k.v), x.layers)
                    continue
            elif isinstance(t, ast.Name):
                continue
            raise Unk("del at line %d" % s.lineno)
        return {"next": st}

    def s_If(self, s, st):
        tv = self.ev(s.test, st)
        t = self.truth(tv, st)
        if t is not None:
            return self.block(s.body if t else s.orelse, st)
        fs = sorted({x[1] for x in tags_of(tv) if x[0] in ("raw", "supp")})
        if len(fs) > 1 and ("memo", "") in tags_of(tv):
            raise Unk("memo table at line %d" % s.lineno)
        if len(fs) > 1:
            self.line = s.lineno
            self.note("carried", "decides with entries of two locales, %s" % " and ".join(fs))
        guard = any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops)
                    for x in ast.walk(s.test))
        yes, no = self.refined(s.test, st.copy(), True), self.refined(s.test, st.copy(), False)
        a = self.block(s.body, yes)
        b = self.block(s.orelse, no)
        self.merge(a, b, guard)
        return a

    def refined(self, t, st, yes):
        """The state where a test on a name came out so."""
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, yes = t.operand, not yes
        none = False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and \
                t.comparators[0].value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot)):
            none = True
            yes = yes != isinstance(t.ops[0], ast.Is)
            t = t.left
        if isinstance(t, ast.Name):
            v = self.lookup(st, t.id)
            if isinstance(v, Mix):
                vs = [x for x in v.vs if ((x != K(None)) if none else self.truth(x, st)) in (yes, None)]
                if vs and len(vs) < len(v.vs):
                    self.bind(st, t.id, vs[0] if len(vs) == 1 else Mix(tuple(vs)))
        return st

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, st, v)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        pre = st.copy()
        names = [self.classes(h) for h in s.handlers]
        try:
            out = self.block(s.body, st)
        except Raised as e:
            out = None
            for h, ns in zip(s.handlers, names):
                if e.cls in ns or "Exception" in ns or (e.cls == "KeyError" and "LookupError" in ns):
                    if h.name:
                        self.bind(pre, h.name, V(frozenset()))
                    # what the body did before the error is kept
                    q = e.st if getattr(e, "st", None) is not None else pre
                    q.frame = pre.frame
                    out = self.block(h.body, q)
                    break
            if out is None:
                if s.finalbody:
                    self.block(s.finalbody, pre)
                raise
        else:
            if out.get("next") is not None and s.orelse:
                n = out.pop("next")
                r = self.block(s.orelse, n)
                out["next"] = r.pop("next", None)
                self.merge(out, r)
            for h, ns in zip(s.handlers, names):
                if set(ns) & {"ValueError", "TypeError", "IndexError"}:
                    q = pre.copy()
                    if h.name:
                        self.bind(q, h.name, V(frozenset()))
                    try:
                        self.merge(out, self.block(h.body, q))
                    except Raised:
                        pass
        if s.finalbody and out.get("next") is not None:
            r = self.block(s.finalbody, out.pop("next"))
            self.merge(out, r)
        return out

    def classes(self, h):
        if h.type is None:
            return ["Exception"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [getattr(t, "id", getattr(t, "attr", "")) for t in ts]

    def s_Raise(self, s, st):
        r = Raised("Exception")
        if s.exc is not None:
            f = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            r.cls = getattr(f, "id", "Exception")
        r.st = st
        raise r

    def s_While(self, s, st):
        out = {}
        cur = st
        for n in range(40):
            t = self.truth(self.ev(s.test, cur), cur)
            if t is False:
                self.merge(out, {"next": cur})
                return out
            r = self.block(s.body, cur.copy())
            self.merge(out, {"next": r.pop("break", None), "return": r.pop("return", None)})
            nxt = join(r.pop("next", None), r.pop("continue", None))
            if t is None:
                self.merge(out, {"next": cur.copy()})
                if nxt is None:
                    return out
                j = join(cur, nxt)
                if j.same(cur):
                    return out
                cur = self.widen(cur, j)
            else:
                if nxt is None:
                    return out
                cur = nxt
        raise Unk("loop at line %d does not settle" % s.lineno)

    def widen(self, a, b):
        """Constants that still change become unknown."""
        for k, o in list(b.h.items()):
            if isinstance(o, Fr) and k in a.h and a.h[k] != o:
                x = dict(a.h[k].vars)
                b.h[k] = Fr(tuple((n, V(tags_of(v)) if x.get(n) is not None and x.get(n) != v and isinstance(v, (K, Mix, V))
                                   and not any(isinstance(y, Ref) for y in getattr(v, "vs", ())) else v)
                                  for n, v in o.vars), o.parent, o.glob)
        return b

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        items = self.known_items(st, it)
        if items is not None:
            out = {}
            cur = st
            saved = self.stack
            for n, x in enumerate(items):
                if cur is None:
                    break
                self.stack = saved + (("i", s.lineno, n),)
                self.assign(s.target, cur, x)
                r = self.block(s.body, cur)
                self.merge(out, {"next": r.pop("break", None), "return": r.pop("return", None)})
                cur = join(r.pop("next", None), r.pop("continue", None))
            self.stack = saved
            if cur is not None and s.orelse:
                r = self.block(s.orelse, cur)
                cur = r.pop("next", None)
                self.merge(out, r)
            self.merge(out, {"next": cur})
            return out
        c = self.coll(st, it)
        if c is None:
            raise Unk("loop over %s at line %d" % (type(it).__name__, s.lineno))

        def body(q):
            self.assign(s.target, q, self.element(c))
            return self.block(s.body, q)
        return self.over(st, c, body)

    def over(self, st, c, body):
        out = {}
        cur = st
        broke = False
        for n in range(40):
            r = body(cur.copy())
            if r.get("break") is not None or r.get("return") is not None:
                broke = True
            self.merge(out, {"next": r.pop("break", None), "return": r.pop("return", None)})
            nxt = join(r.pop("next", None), r.pop("continue", None), False)
            if nxt is None:
                break
            j = self.loop_join(cur, nxt, c)
            if j.same(cur):
                break
            if n>30 and hasattr(self,"dbg"): self.dbg(cur,j)
            cur = self.widen(cur, j) if n > 1 else j
        else:
            raise Unk("loop at line %d does not settle" % self.line)
        cur = self.finish(cur, c, broke)
        nx = out.pop("next", None)
        if nx is not None:
            nx = self.finish(nx, c, True)
        out["next"] = join(cur, nx)
        return out

    def loop_join(self, a, b, c):
        """Join of the states before and after one round; what is done for each element of c is not weakened."""
        q = St()
        q.frame = a.frame
        for k in b.h:
            x, y = a.h.get(k), b.h[k]
            if x is None or x == y:
                q.h[k] = y
                continue
            if isinstance(y, (D, L)) and type(x) is type(y):
                lx = x.layers if isinstance(x, D) else as_layers(x)
                ly = y.layers if isinstance(y, D) else as_layers(y)
                ext = ly[:len(lx)] == lx and all(l[0] in ("elem", "elem?", "elem-absent", "absent", "some") for l in ly[len(lx):])
                if ext and (isinstance(y, L) or x.ents == y.ents):
                    q.h[k] = D(y.ents, ly) if isinstance(y, D) else L(None, ly, x.order if x.items or x.layers else c.order)
                    continue
            q.h[k] = join_obj(x, y, False)
        for k in a.h:
            if k not in b.h:
                q.h[k] = a.h[k]
        q.out = join(a, b).out
        return q

    def finish(self, st, c, broke):
        m = {"elem": "some" if broke else "all", "elem?": "some", "elem-absent": "absent"}
        def mine(x):
            return x[0] == "coll" and x[1][:2] == c[:2]

        def conv(ls):
            out = ()
            for l in ls:
                out = add_layer(out, (m[l[0]], l[1]) if l[0] in m and mine(l[1]) else l)
            return out
        for k, o in list(st.h.items()):
            if isinstance(o, D):
                st.h[k] = D(o.ents, conv(o.layers))
            elif isinstance(o, L) and o.items is None:
                st.h[k] = L(None, conv(o.layers), o.order)
        return st

    # -------------------------------------------------------------- names
    def bind(self, st, name, v):
        f = st.h[st.frame]
        st.h[st.frame] = Fr(tuple(sorted([p for p in f.vars if p[0] != name] + [(name, v)], key=lambda p: p[0])),
                            f.parent, f.glob)

    def lookup(self, st, name):
        a = st.frame
        while a is not None:
            f = st.h[a]
            for n, v in f.vars:
                if n == name and v is not None:
                    return v
            a = f.parent
        return Ext("builtins." + name)

    def assign(self, t, st, v):
        if isinstance(t, ast.Name):
            a = st.frame
            f = st.h[a]
            if f.glob and t.id in f.glob:
                while st.h[a].parent is not None:
                    a = st.h[a].parent
                    if any(n == t.id for n, _ in st.h[a].vars):
                        break
                keep, st.frame = st.frame, a
                self.bind(st, t.id, v)
                st.frame = keep
                return
            self.bind(st, t.id, v)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(st, v, len(t.elts))):
                self.assign(x, st, y)
            return
        if isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, st), self.ev(t.slice, st)
            self.setitem(st, o, k, v)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            if isinstance(o, Ref) and isinstance(st.h[o.a], Obj):
                x = st.h[o.a]
                st.h[o.a] = Obj(x.cls, tuple(p for p in x.attrs if p[0] != t.attr) + ((t.attr, v),))
                return
        raise Unk("assignment at line %d" % self.line)

    def unpack(self, st, v, n):
        if isinstance(v, T) and len(v.vs) == n:
            return v.vs
        if isinstance(v, E) and v.part == "pair" and n == 2:
            return [E(v.coll, "key"), E(v.coll, "val")]
        if isinstance(v, E) and v.part == "riap" and n == 2:
            return [E(v.coll, "val"), E(v.coll, "key")]
        if isinstance(v, (V, E, J)):
            return [V(tags_of(v))] * n
        xs = self.known_items(st, v)
        if xs is not None and len(xs) == n:
            return xs
        raise Unk("unpacking at line %d" % self.line)

    def setitem(self, st, o, k, v):
        if isinstance(o, Mix):
            q = [st.copy() for _ in o.vs]
            for x, y in zip(q, o.vs):
                self.setitem(x, y, k, v)
            r = q[0]
            for x in q[1:]:
                r = join(r, x)
            st.h, st.out = r.h, r.out
            return
        if not isinstance(o, Ref):
            raise Unk("item assignment on %s at line %d" % (type(o).__name__, self.line))
        x = st.h[o.a]
        if isinstance(x, D):
            if isinstance(k, K):
                es = tuple((a, v, True) if a == k.v else (a, b, m) for a, b, m in x.ents)
                if not any(e[0] == k.v for e in x.ents):
                    es += ((k.v, v, True),)
                st.h[o.a] = D(es, x.layers)
                return
            if isinstance(k, Mix) and all(isinstance(y, K) for y in k.vs):
                q = [st.copy() for _ in k.vs]
                for y, z in zip(q, k.vs):
                    self.setitem(y, o, z, v)
                r = q[0]
                for y in q[1:]:
                    r = join(r, y)
                st.h, st.out = r.h, r.out
                return
            if isinstance(v, Ref):
                raise Unk("table under an unknown key at line %d" % self.line)
            if isinstance(k, E) and k.part in ("key", "elem") and (
                    isinstance(v, E) and v.part == "val" and v.coll == k.coll or k.part == "elem"):
                l = ("elem", ("coll", k.coll))
            else:
                l = ("some", ("tags", tags_of(k) | tags_of(v)))
            st.h[o.a] = D(x.ents, add_layer(x.layers, l))
            return
        if isinstance(x, L) and x.items is not None and isinstance(k, K) and isinstance(k.v, int) and -len(x.items) <= k.v < len(x.items):
            i = list(x.items)
            i[k.v] = v
            st.h[o.a] = L(tuple(i), (), x.order)
            return
        raise Unk("item assignment at line %d" % self.line)

    # -------------------------------------------------------------- collections
    def known_items(self, st, v):
        if isinstance(v, T):
            return list(v.vs)
        if isinstance(v, K) and isinstance(v.v, (tuple, list, range)):
            return [K(x) for x in v.v]
        if isinstance(v, K) and isinstance(v.v, str) and len(v.v) < 50:
            return [K(x) for x in v.v]
        if isinstance(v, Ref):
            x = st.h[v.a]
            if isinstance(x, L) and x.items is not None:
                return list(x.items)
            if isinstance(x, D) and not x.layers and all(m for _, _, m in x.ents):
                return [K(k) for k, _, _ in x.ents]
            if isinstance(x, Cell) and len(x.items) <= 1:
                return list(x.items)
        if isinstance(v, Meth) and v.name.startswith("view:") and isinstance(v.obj, Ref):
            x = st.h[v.obj.a]
            if isinstance(x, D) and not x.layers and all(m for _, _, m in x.ents):
                n = v.name[5:]
                return [K(k) if n == "keys" else w if n == "values" else T((K(k), w)) for k, w, _ in x.ents]
        return None

    def coll(self, st, v):
        if isinstance(v, Coll):
            return v
        if isinstance(v, J):
            return Coll((("all", ("J", v.kind, v.file, v.path)),), "file", "list" if self.is_list(v) else "keys")
        if isinstance(v, Meth) and v.name.startswith("view:"):
            n = v.name[5:]
            if isinstance(v.obj, J):
                return Coll((("all", ("J", v.obj.kind, v.obj.file, v.obj.path)),), "file", n)
            if isinstance(v.obj, Ref):
                x = st.h[v.obj.a]
                if isinstance(x, D) and not x.ents:
                    return Coll(x.layers, self.dict_order(x), n)
            if isinstance(v.obj, (E, V)):
                return Coll((("some", ("tags", tags_of(v.obj))),), "file", n)
        if isinstance(v, Ref):
            x = st.h[v.a]
            if isinstance(x, L) and x.items is None:
                ks = {s[1].kind for m, s in x.layers if s[0] == "coll"}
                k = "items" if "items" in ks else "swapped" if "swapped" in ks else "list"
                return Coll(x.layers, x.order, k)
            if isinstance(x, L):
                return Coll(as_layers(x), x.order, "list")
            if isinstance(x, D) and not x.ents:
                return Coll(x.layers, self.dict_order(x), "keys")
            if isinstance(x, Cell):
                return Coll(tuple(("some", ("tags", tags_of(y))) for y in x.items), "hash", "list")
        if isinstance(v, (V, E)):
            return Coll((("some", ("tags", tags_of(v))),), "file", "list")
        return None

    def is_list(self, v):
        return v.path[-1:] == ("SKIP_TOKENS",)

    def dict_order(self, x):
        if len(x.layers) == 1 and x.layers[0][0] == "all" and x.layers[0][1][0] == "coll":
            return x.layers[0][1][1].order
        hs = {s[1].order for m, s in x.layers if s[0] == "coll"} & {"hash", "listing"}
        return hs.pop() if hs else "file"

    def element(self, c):
        if isinstance(c, Coll):
            return E(c, {"items": "pair", "swapped": "riap", "keys": "key", "values": "val", "list": "elem"}[c.kind])
        raise Unk("element")

    def update(self, st, o, v):
        x = st.h[o.a]
        if isinstance(v, Mix):
            raise Unk("update from alternatives")
        if isinstance(v, Ref) and isinstance(st.h[v.a], D):
            y = st.h[v.a]
            for k, w, m in y.ents:
                if not m:
                    raise Unk("update from uncertain entries")
                self.setitem(st, o, K(k), w)
            x = st.h[o.a]
            ls = x.layers
            for l in y.layers:
                ls = add_layer(ls, l)
            st.h[o.a] = D(x.ents, ls)
            return
        if isinstance(v, J):
            if v.kind == "supp" and v.path == ():
                for k in self.schema[v.file]:
                    self.setitem(st, o, K(k), J(v.kind, v.file, (k,)))
                return
            st.h[o.a] = D(x.ents, add_layer(x.layers, ("all", ("J", v.kind, v.file, v.path))))
            return
        its = self.known_items(st, v)
        if its is not None:
            for i in its:
                a, b = self.unpack(st, i, 2)
                self.setitem(st, o, a, b)
            return
        c = self.coll(st, v)
        if c is not None:
            st.h[o.a] = D(x.ents, add_layer(x.layers, ("all", ("coll", c))))
            return
        raise Unk("update at line %d" % self.line)

    def extend(self, st, o, v):
        x = st.h[o.a]
        its = self.known_items(st, v)
        if isinstance(x, L):
            if its is not None and x.items is not None:
                st.h[o.a] = L(x.items + tuple(its), (), None)
                return
            c = self.coll(st, v)
            if c is not None:
                ls = as_layers(x)
                st.h[o.a] = L(None, add_layer(ls, ("all", ("coll", c))), c.order if not ls else None)
                return
        raise Unk("extend at line %d" % self.line)

    def truth(self, v, st):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, T):
            return bool(v.vs)
        if isinstance(v, (Fun, Ext, P, File, J)):
            return True if not (isinstance(v, J) and v.path[-1:] == ("USE_LONG_SCALE",)) else None
        if isinstance(v, Ref):
            x = st.h[v.a]
            if isinstance(x, D):
                if any(m for _, _, m in x.ents):
                    return True
                if not x.ents and not x.layers:
                    return False
                return None
            if isinstance(x, L) and x.items is not None:
                return bool(x.items)
            return None
        if isinstance(v, Mix):
            ts = {self.truth(x, st) for x in v.vs}
            return ts.pop() if len(ts) == 1 else None
        return None

    # -------------------------------------------------------------- expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unk("expression %s at line %d" % (type(e).__name__, e.lineno))
        self.line = e.lineno
        return m(e, st)

    def e_Constant(self, e, st):
        return K(e.value)

    def e_Name(self, e, st):
        return self.lookup(st, e.id)

    def e_Tuple(self, e, st):
        vs = [self.ev(x, st) for x in e.elts]
        return K(tuple(x.v for x in vs)) if all(isinstance(x, K) for x in vs) else T(tuple(vs))

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            o = self.new(st, ("list", e.col_offset), L((), (), None))
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.extend(st, o, self.ev(x.value, st))
                else:
                    self.append(st, o, self.ev(x, st))
            return o
        vs = tuple(self.ev(x, st) for x in e.elts)
        return self.new(st, ("list", e.col_offset), L(vs, (), None))

    def e_Set(self, e, st):
        return self.new(st, ("set", e.col_offset), Cell(tuple(self.ev(x, st) for x in e.elts)))

    def e_Dict(self, e, st):
        o = self.new(st, ("dict", e.col_offset), D((), ()))
        cur = D((), ())
        for k, v in zip(e.keys, e.values):
            w = self.ev(v, st)
            st.h[o.a] = cur
            if k is None:
                self.update(st, o, w)
            else:
                kk = self.ev(k, st)
                st.h[o.a] = cur
                self.setitem(st, o, kk, w)
            cur = st.h[o.a]
        st.h[o.a] = cur
        return o

    def e_Lambda(self, e, st):
        return Fun(e, st.frame, tuple(self.ev(d, st) for d in e.args.defaults) + (("kw",),))

    def e_IfExp(self, e, st):
        t = self.truth(self.ev(e.test, st), st)
        if t is not None:
            return self.ev(e.body if t else e.orelse, st)
        a, b = st.copy(), st.copy()
        x, y = self.ev(e.body, a), self.ev(e.orelse, b)
        j = join(a, b)
        st.h, st.out = j.h, j.out
        return join_val(x, y)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = None
        for i, x in enumerate(e.values):
            v = self.ev(x, st)
            t = self.truth(v, st)
            if t is not None and t != isand:
                return v if res is None else join_val(res, v)
            if t is None or i == len(e.values) - 1:
                res = v if res is None else join_val(res, v)
        return res

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            return K(not t) if t is not None else V(tags_of(v))
        if isinstance(v, K):
            return K(-v.v if isinstance(e.op, ast.USub) else v.v)
        return V(tags_of(v))

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.bind(st, e.target.id, v)
        return v

    def e_Compare(self, e, st):
        a = self.ev(e.left, st)
        res = K(True)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, st)
            x = self.cmp(op, a, b, st)
            if x == K(False):
                return x
            if isinstance(x, V):
                res = V(tags_of(res) | x.tags)
            a = b
        return res

    def cmp(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, J) and isinstance(a, K):
                if b.kind == "raw":
                    has = self.raw_has(b, a.v)
                elif b.path == ():
                    has = a.v in self.schema.get(b.file, ())
                else:
                    has = None
                return K(has != neg) if has is not None else V(tags_of(b))
            its = self.known_items(st, b)
            if isinstance(b, Ref) and isinstance(st.h[b.a], Cell):
                its = list(st.h[b.a].items)
            if isinstance(b, K) and isinstance(b.v, str):
                its = None
                if isinstance(a, K):
                    return K((a.v in b.v) != neg)
            if isinstance(b, K) and isinstance(b.v, (set, frozenset, dict)) and isinstance(a, K):
                return K((a.v in b.v) != neg)
            if its is not None and isinstance(a, K) and all(isinstance(x, K) for x in its):
                return K((a.v in [x.v for x in its]) != neg)
            tb = tags_of(b)
            if isinstance(b, Ref):
                try:
                    tb = snap_tags(self.snap(st, b))
                    if isinstance(st.h[b.a], D):
                        tb |= frozenset([("memo", "")])
                except Unk:
                    pass
            return V(tags_of(a) | tb)
        if isinstance(a, K) and isinstance(b, K):
            f = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y,
                 ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y,
                 ast.Is: lambda x, y: x is y or x == y, ast.IsNot: lambda x, y: not (x is y or x == y)}[type(op)]
            return K(f(a.v, b.v))
        if isinstance(op, (ast.Is, ast.IsNot)) and K(None) in (a, b):
            o = b if a == K(None) else a
            if isinstance(o, (Ref, J, T, E, P, Fun)):
                return K(isinstance(op, ast.IsNot))
        return V(tags_of(a) | tags_of(b))

    def raw_has(self, j, key):
        full = ("rbnf", "rbnf", "SpelloutRules")
        n = len(j.path)
        if n < 3 and j.path == full[:n] and key == full[n]:
            return not (n == 2 and j.file in self.missing)
        return None

    def e_BinOp(self, e, st):
        return self.binop(e.op, self.ev(e.left, st), self.ev(e.right, st), st)

    def binop(self, op, a, b, st):
        if isinstance(a, P) or isinstance(b, P):
            if isinstance(op, ast.Div) and all(isinstance(x, (P, K)) for x in (a, b)):
                return P(posixpath.join(a.v, b.v))
            raise Unk("path operation")
        if isinstance(a, K) and isinstance(b, K):
            try:
                return K({ast.Add: lambda x, y: x + y, ast.Mod: lambda x, y: x % y, ast.Sub: lambda x, y: x - y,
                          ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y,
                          ast.FloorDiv: lambda x, y: x // y, ast.BitOr: lambda x, y: x | y}[type(op)](a.v, b.v))
            except (TypeError, KeyError, ZeroDivisionError):
                raise Unk("operation at line %d" % self.line)
        if isinstance(op, ast.BitOr) and any(isinstance(x, (Ref, J)) for x in (a, b)):
            o = self.new(st, ("or",), D((), ()))
            self.update(st, o, a)
            self.update(st, o, b)
            return o
        if isinstance(op, ast.Add) and any(isinstance(x, (Ref, Meth, Coll)) for x in (a, b)):
            o = self.new(st, ("plus",), L((), (), None))
            self.extend(st, o, a)
            self.extend(st, o, b)
            return o
        return self.text([a, b], st)

    def text(self, vs, st):
        """A string or number made of these."""
        ds = ()
        tg = frozenset()
        for v in vs:
            if isinstance(v, Dump):
                ds += v.items
            elif isinstance(v, Ref):
                ds += (("table", self.snap(st, v)),)
            else:
                tg |= tags_of(v)
        if ds:
            return Dump(ds + ((("tags", tg),) if tg else ()))
        return V(tg)

    def e_JoinedStr(self, e, st):
        vs = []
        for x in e.values:
            vs.append(K(x.value) if isinstance(x, ast.Constant) else self.ev(x.value, st))
        if all(isinstance(v, (K, P)) for v in vs):
            return K("".join(str(v.v) for v in vs))
        return self.text(vs, st)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            b = [self.ev(x, st) if x is not None else K(None) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            if isinstance(o, K) and all(isinstance(x, K) for x in b):
                return K(o.v[b[0].v:b[1].v:b[2].v])
            if isinstance(o, E) and o.part == "pair" and [x.v if isinstance(x, K) else 0 for x in b] == [None, None, -1]:
                return T((E(o.coll, "val"), E(o.coll, "key")))
            its = self.known_items(st, o)
            if its is not None and all(isinstance(x, K) for x in b):
                return self.new(st, ("sl", e.col_offset), L(tuple(its[b[0].v:b[1].v:b[2].v]), (), None))
            if its is not None and any(("listing", "") in tags_of(x) for x in b):
                self.note("listing", "takes a part of the directory listing")
                return self.new(st, ("sl", e.col_offset), L(tuple(its), (), None))
            return V(tags_of(o))
        return self.item(st, o, self.ev(e.slice, st))

    def item(self, st, o, k):
        if isinstance(o, Mix):
            r = None
            for x in o.vs:
                r = join_val(r, self.item(st, x, k))
            return r
        if isinstance(k, Mix) and all(isinstance(y, K) for y in k.vs):
            r, err = None, None
            for y in k.vs:
                try:
                    r = join_val(r, self.item(st, o, y))
                except Raised as x:
                    err = x
            if r is None and err is not None:
                raise err
            return r
        if isinstance(o, J):
            if isinstance(k, K):
                if o.kind == "raw" and self.raw_has(o, k.v) is False or \
                        o.kind == "supp" and o.path == () and k.v not in self.schema.get(o.file, (k.v,)):
                    r = Raised("KeyError")
                    r.st = st
                    raise r
                return J(o.kind, o.file, o.path + (k.v,))
            return V(tags_of(o))
        if isinstance(o, K) and isinstance(k, K):
            try:
                return K(o.v[k.v])
            except (KeyError, IndexError, TypeError) as x:
                raise Raised(type(x).__name__)
        if isinstance(o, E) and o.part in ("pair", "riap") and isinstance(k, K) and k.v in (0, 1, -1, -2):
            return E(o.coll, "key" if (k.v in (0, -2)) == (o.part == "pair") else "val")
        if isinstance(o, T) and isinstance(k, K) and isinstance(k.v, int):
            return o.vs[k.v]
        if isinstance(o, Ref):
            x = st.h[o.a]
            if isinstance(x, D):
                if isinstance(k, K):
                    for a, b, m in x.ents:
                        if a == k.v:
                            return b
                    if not x.layers:
                        r = Raised("KeyError")
                        r.st = st
                        raise r
                    return V(layer_tags(x.layers))
                if isinstance(k, Mix) and all(isinstance(y, K) for y in k.vs):
                    r = None
                    for y in k.vs:
                        r = join_val(r, self.item(st, o, y))
                    return r
                if isinstance(k, E) and k.part == "key" and k.coll.layers == x.layers:
                    return E(k.coll, "val")
                if not x.ents:
                    return V(layer_tags(x.layers))
                r = None
                for a, b, m in x.ents:
                    r = join_val(r, b)
                return r
            if isinstance(x, L):
                if x.items is not None and isinstance(k, K) and isinstance(k.v, int):
                    if -len(x.items) <= k.v < len(x.items):
                        return x.items[k.v]
                    raise Raised("IndexError")
                if x.items is None:
                    return V(layer_tags(x.layers))
        if isinstance(o, (V, E)):
            return V(tags_of(o))
        raise Unk("item of %s at line %d" % (type(o).__name__, self.line))

    def e_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.attr(st, o, e.attr)

    def attr(self, st, o, name):
        if isinstance(o, Ext):
            return Ext(o.name + "." + name)
        if isinstance(o, P):
            if name == "name":
                return K(posixpath.basename(o.v))
            if name == "stem":
                return K(posixpath.splitext(posixpath.basename(o.v))[0])
            if name == "suffix":
                return K(posixpath.splitext(o.v)[1])
            if name == "parent":
                return P(posixpath.dirname(o.v) or ".")
            if name == "parents":
                xs, v = [], o.v
                while posixpath.dirname(v) != v:
                    v = posixpath.dirname(v)
                    xs.append(P(v))
                return T(tuple(xs))
        if isinstance(o, Ref) and isinstance(st.h[o.a], Obj):
            for k, v in st.h[o.a].attrs:
                if k == name:
                    return v
        return Meth(o, name)

    # comprehensions
    def e_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def e_SetComp(self, e, st):
        o = self.comp(e, st, "list")
        x = st.h[o.a]
        c = tuple(x.items) if x.items is not None else (V(layer_tags(x.layers)),)
        return self.new(st, ("setc", e.col_offset), Cell(c))

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        f = self.new(st, ("comp", e.col_offset), Fr((), st.frame, None))
        res = self.new(st, ("compr", e.col_offset), L((), (), None) if kind == "list" else D((), ()))
        keep = st.frame
        st.frame = f.a

        def go(i, q):
            if i == len(e.generators):
                if kind == "dict":
                    self.setitem(q, res, self.ev(e.key, q), self.ev(e.value, q))
                else:
                    self.append(q, res, self.ev(e.elt, q))
                return q
            g = e.generators[i]
            it = self.ev(g.iter, q)
            its = self.known_items(q, it)

            def conds(q):
                un = None
                for c in g.ifs:
                    t = self.truth(self.ev(c, q), q)
                    if t is False:
                        return False, False
                    if t is None:
                        un = "g" if any(isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops)
                                        for x in ast.walk(c)) else (un or "u")
                return True, un

            def one(q):
                ok, un = conds(q)
                if not ok:
                    return q
                if un:
                    return join(q.copy(), go(i + 1, q), un == "g")
                return go(i + 1, q)
            if its is not None:
                saved = self.stack
                for n, x in enumerate(its):
                    self.stack = saved + (("c", e.lineno, e.col_offset, n),)
                    self.assign(g.target, q, x)
                    q = one(q)
                self.stack = saved
                return q
            c = self.coll(q, it)
            if c is None:
                raise Unk("comprehension over %s at line %d" % (type(it).__name__, self.line))

            def body(q):
                self.assign(g.target, q, self.element(c))
                return {"next": one(q)}
            return self.over(q, c, body)["next"]
        q = go(0, st.copy())
        q.frame = keep
        st.h, st.out, st.frame = q.h, q.out, keep
        return res

    def append(self, st, o, v):
        x = st.h[o.a]
        if isinstance(x, Cell):
            if v not in x.items:
                st.h[o.a] = Cell(x.items + (v,))
            return
        if not isinstance(x, L):
            raise Unk("append")
        if isinstance(v, E) or x.items is None:
            if isinstance(v, T) and len(v.vs) == 2 and isinstance(v.vs[0], E) and isinstance(v.vs[1], E) and \
                    v.vs[0].coll == v.vs[1].coll and (v.vs[0].part, v.vs[1].part) == ("key", "val"):
                v = E(v.vs[0].coll, "pair")
            elif isinstance(v, T) and len(v.vs) == 2 and isinstance(v.vs[0], E) and isinstance(v.vs[1], E) and \
                    v.vs[0].coll == v.vs[1].coll and (v.vs[0].part, v.vs[1].part) == ("val", "key"):
                v = E(v.vs[0].coll, "riap")
            ls = as_layers(x)
            l = ("elem", ("coll", v.coll._replace(kind={"pair": "items", "riap": "swapped", "key": "keys"}.get(v.part, "list")))) \
                if isinstance(v, E) and v.part in ("pair", "riap", "elem", "key") else ("some", ("tags", tags_of(v)))
            st.h[o.a] = L(None, add_layer(ls, l), (v.coll.order if isinstance(v, E) and (not ls or ls[-1] == l) else None))
            return
        if isinstance(v, T) and len(v.vs) == 2 and isinstance(v.vs[0], E):
            st.h[o.a] = L(None, as_layers(x), None)
            return self.append(st, o, v)
        if len(x.items) > 60:
            st.h[o.a] = L(None, as_layers(x), None)
            return self.append(st, o, v)
        if isinstance(v, V):
            ls = as_layers(x)
            st.h[o.a] = L(None, add_layer(ls, ("some", ("tags", v.tags))), None)
            return
        st.h[o.a] = L(x.items + (v,), (), None)

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st):
        f = self.ev(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                its = self.known_items(st, self.ev(a.value, st))
                if its is None:
                    raise Unk("starred argument at line %d" % e.lineno)
                args += its
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                x = st.h.get(v.a) if isinstance(v, Ref) else None
                if not isinstance(x, D) or x.layers:
                    raise Unk("keyword arguments at line %d" % e.lineno)
                for a, b, m in x.ents:
                    kw[a] = b
            else:
                kw[k.arg] = v
        self.line = e.lineno
        self.col = e.col_offset
        return self.call(st, f, args, kw, e)

    def call(self, st, f, args, kw, e=None):
        if isinstance(f, Mix):
            fs = [x for x in f.vs if x != K(None)]
            rs, q = None, None
            for x in fs:
                c = st.copy()
                rs = join_val(rs, self.call(c, x, list(args), dict(kw), e))
                q = join(q, c)
            st.h, st.out = q.h, q.out
            return rs
        if isinstance(f, Fun):
            return self.fun(st, f, args, kw)
        if isinstance(f, Part):
            return self.call(st, f.fn, list(f.args) + args, {**dict(f.kw), **kw}, e)
        if isinstance(f, Ext):
            n = f.name
            return self.external(st, n[9:] if n.startswith("builtins.") else n, args, kw, e)
        if isinstance(f, Meth):
            return self.method(st, f.obj, f.name, args, kw)
        raise Unk("call of %s at line %d" % (type(f).__name__, self.line))

    def fun(self, st, f, args, kw):
        self.calls += 1
        if len(self.stack) > 40:
            raise Unk("call depth")
        a = f.node.args
        ds = f.defaults[:-1]
        kd = f.defaults[-1][1:]
        names = [x.arg for x in a.posonlyargs + a.args]
        vs = {}
        for n, v in zip(names, args):
            vs[n] = v
        if a.vararg:
            vs[a.vararg.arg] = T(tuple(args[len(names):]))
        elif len(args) > len(names):
            raise Unk("arguments")
        for k, v in kw.items():
            vs[k] = v
        for n, d in zip(names[len(names) - len(ds):], ds):
            vs.setdefault(n, d)
        for x, d in zip(a.kwonlyargs, kd):
            if d is not None:
                vs.setdefault(x.arg, d)
        isfn = isinstance(f.node, ast.FunctionDef)
        if isfn and MUT.get(id(f.node)) and not all(isinstance(v, (K, P)) for v in vs.values()):
            raise Unk("memo table")
        glob = None
        if isfn:
            self.fns.add(f.node.name)
            glob = frozenset(n for s in ast.walk(f.node) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names)
            if any(isinstance(s, (ast.Yield, ast.YieldFrom)) for s in ast.walk(f.node)):
                return self.generator(st, f, vs, glob)
        saved, frame = self.stack, st.frame
        self.stack = saved + ((f.node.lineno, self.line, self.col),)
        fr = self.new(st, ("frame",), Fr(tuple(sorted(vs.items(), key=lambda p: p[0])), f.env, glob))
        st.frame = fr.a
        line = self.line
        try:
            if not isfn:
                v = self.ev(f.node.body, st)
                q = st
            else:
                o = self.block(f.node.body, st.copy())
                q, v = None, None
                if o.get("return") is not None:
                    q, v = o["return"]
                if o.get("next") is not None:
                    q, v = join(q, o["next"]), join_val(v, K(None)) if v is not None else K(None)
                if q is None:
                    raise Raised("Exception")
        finally:
            self.stack = saved
            self.line = line
            st.frame = frame
        st.h, st.out = dict(q.h), dict(q.out)
        st.h.pop(fr.a, None) if isfn and not any(isinstance(s, (ast.FunctionDef, ast.Lambda)) for s in ast.walk(f.node) if s is not f.node) else None
        st.frame = frame
        return v

    def generator(self, st, f, vs, glob):
        """A generator function whose yields are collected in order."""
        node = f.node
        res = self.new(st, ("gen", node.lineno), L((), (), None))

        class Y(ast.NodeTransformer):
            def visit_Yield(s, n):
                return ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=ast.copy_location(ast.Name(
                    id="$y", ctx=ast.Load()), n), attr="append", ctx=ast.Load()), n), args=[n.value or ast.copy_location(ast.Constant(value=None), n)], keywords=[]), n)

            def visit_YieldFrom(s, n):
                return ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=ast.copy_location(ast.Name(
                    id="$y", ctx=ast.Load()), n), attr="extend", ctx=ast.Load()), n), args=[n.value], keywords=[]), n)
        import copy
        body = copy.deepcopy(node)
        body = Y().visit(body)
        g = Fun(body, f.env, (("kw",),))
        saved = body.args
        body.args = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[ast.arg(arg=k) for k in list(vs) + ["$y"]],
                                  kw_defaults=[None] * (len(vs) + 1), kwarg=None, defaults=[])
        g = Fun(body, f.env, (("kw",) + (None,) * (len(vs) + 1),))
        self.fun(st, g, [], {**vs, "$y": res})
        return res

    # -------------------------------------------------------------- files
    def abspath(self, v):
        if isinstance(v, (K, P)) and isinstance(v.v, str):
            p = posixpath.normpath(posixpath.join(self.cwd.v, v.v))
            if p.startswith("/CWD"):
                self.note("directory", "uses a path that depends on the directory the generator is started in")
            return p
        if isinstance(v, File):
            return v.path
        raise Unk("path at line %d is not known" % self.line)

    def encoding(self, mode, enc):
        if isinstance(mode, K) and "b" in mode.v:
            return
        if enc is None or enc == K(None):
            self.note("encoding", "opens a text file without naming its encoding")
        elif isinstance(enc, K) and isinstance(enc.v, str):
            if enc.v.lower().replace("-", "_") not in UTF8:
                self.note("encoding", "opens a text file as %s" % enc.v)
        elif isinstance(enc, V) and ("locale", "") in enc.tags:
            self.note("encoding", "opens a text file in the encoding of the locale")
        else:
            raise Unk("encoding at line %d is not known" % self.line)

    def open(self, st, path, mode, enc):
        mode = mode or K("r")
        if not isinstance(mode, K):
            raise Unk("mode of a file")
        self.encoding(mode, enc)
        p = self.abspath(path)
        if any(c in mode.v for c in "wax+"):
            self.target(p)
            if "a" in mode.v:
                self.note("append", "appends to what an earlier run left in %s" % posixpath.basename(p))
            if "w" in mode.v or "x" in mode.v:
                st.out[p] = ((), True)
        return File(p, mode.v)

    def target(self, p):
        if posixpath.dirname(p) != DATA or not p.endswith(".py"):
            self.note("outside", "writes %s, which is no language file of number_parser/data" % p.replace(ROOT + "/", ""))
        elif posixpath.basename(p) == "__init__.py":
            self.note("outside", "writes %s, which is no language file" % p.replace(ROOT + "/", ""))

    def write(self, st, p, v):
        items = v.items if isinstance(v, Dump) else (("tags", tags_of(v)),)
        old = st.out.get(p, ((), True))
        st.out[p] = (old[0] + items, True)
        self.target(p)

    def load(self, st, v):
        if isinstance(v, File):
            d, b = posixpath.split(v.path)
            for k, q in (("raw", RAW), ("supp", SUPP)):
                if d == q:
                    return J(k, b, ())
            return J("other", v.path, ())
        if isinstance(v, V):
            t = [x for x in v.tags if x[0] in ("text:raw", "text:supp")]
            if len(t) == 1 and len(v.tags) == 1:
                return J(t[0][0][5:], t[0][1], ())
        raise Unk("json of something unknown at line %d" % self.line)

    def read(self, p):
        d, b = posixpath.split(p)
        return V(frozenset([("text:raw" if d == RAW else "text:supp" if d == SUPP else "text:other", b)]))

    def listing(self, st, path, how):
        p = self.abspath(path)
        if p == RAW:
            self.listed = how
            return list(self.files)
        if p == SUPP:
            return [f for f in self.files if f in self.schema]
        if p == DATA:
            return [f[:-5] + ".py" for f in self.files]
        if p.startswith("/CWD"):
            return list(self.files)
        raise Unk("listing of %s" % p)

    def snap(self, st, v, depth=0):
        """What a value holds now, as nested tuples."""
        if depth > 5:
            raise Unk("nesting")
        if isinstance(v, Ref):
            x = st.h[v.a]
            if isinstance(x, D):
                return ("dict", tuple((k, self.snap(st, w, depth + 1), m) for k, w, m in x.ents), x.layers)
            if isinstance(x, L):
                return ("list", tuple(self.snap(st, w, depth + 1) for w in x.items or ()), x.layers, x.order)
            if isinstance(x, Cell):
                return ("list", tuple(self.snap(st, w, depth + 1) for w in x.items), (), "hash")
        if isinstance(v, J) and v.kind == "supp" and v.path and v.path[-1] == "SKIP_TOKENS":
            return ("list", (), (("all", ("J", v.kind, v.file, v.path)),), "file")
        if isinstance(v, J) and v.path:
            return ("dict", (), (("all", ("J", v.kind, v.file, v.path)),)) if v.path[-1] != "USE_LONG_SCALE" else ("val", v)
        return ("val", v)

    def dump(self, st, v, sort_keys):
        s = self.snap(st, v)
        if sort_keys:
            def srt(s):
                if s[0] == "dict":
                    ls = tuple(("all", ("coll", Coll(s[2], ("sorted", ("key",)), "items"))) for _ in (1,)) if s[2] else ()
                    return ("dict", tuple((k, srt(w), m) for k, w, m in s[1]), ls)
                return s
            s = srt(s)
        return Dump((("table", s),))

    def sort(self, st, v, key, reverse):
        its = self.known_items(st, v)
        rev = reverse is not None and reverse != K(False)
        if its is not None and all(isinstance(x, (K, P)) for x in its):
            if key is None or key == K(None):
                xs = sorted(its, key=lambda x: x.v, reverse=rev)
            else:
                xs = its
                try:
                    xs = sorted(its, key=lambda x: self.call(st, key, [x], {}).v, reverse=rev)
                except (AttributeError, TypeError):
                    raise Unk("sort key")
            return self.new(st, ("sorted",), L(tuple(xs), (), ("sorted", "listing")))
        if isinstance(v, Ref) and isinstance(st.h[v.a], Cell):
            x = st.h[v.a]
            if any(isinstance(y, Ref) for y in x.items):
                raise Unk("sorted set")
            kinds = {y.coll.kind for y in x.items if isinstance(y, E)}
            c = Coll(tuple(("all" if isinstance(y, E) else "some", ("coll", y.coll) if isinstance(y, E) else ("tags", tags_of(y)))
                           for y in x.items), "hash", kinds.pop() if len(kinds) == 1 else "list")
        else:
            c = self.coll(st, v)
        if c is None:
            raise Unk("sorted of %s at line %d" % (type(v).__name__, self.line))
        if key is None or key == K(None):
            spec = {"items": ("key", "val"), "swapped": ("val", "key")}.get(c.kind, ("elem",))
        else:
            r = self.call(st, key, [self.element(c)], {})
            xs = r.vs if isinstance(r, T) else (r,)
            spec = []
            for x in xs:
                if isinstance(x, E) and x.coll == c:
                    spec += {"pair": ["key", "val"], "riap": ["val", "key"]}.get(x.part, [x.part])
                elif isinstance(x, K):
                    pass
                else:
                    raise Unk("sort key at line %d" % self.line)
            spec = tuple(spec)
        return self.new(st, ("sorted",), L(None, (("all", ("coll", c)),), ("sorted", ("reverse",) + spec if rev else spec)))

    def external(self, st, n, args, kw, e):
        a0 = args[0] if args else None
        if n in ("open", "io.open", "codecs.open"):
            if n == "codecs.open":
                return self.open(st, a0, kw.get("mode") or (args[1] if len(args) > 1 else None),
                                 kw.get("encoding") or (args[2] if len(args) > 2 else None))
            return self.open(st, kw.get("file", a0), kw.get("mode") or (args[1] if len(args) > 1 else None),
                             kw.get("encoding") or (args[3] if len(args) > 3 else None))
        if n in ("json.load", "json.loads"):
            return self.load(st, a0)
        if n in ("json.dumps", "json.dump"):
            d = self.dump(st, a0, kw.get("sort_keys") not in (None, K(False)))
            if n == "json.dump":
                f = args[1] if len(args) > 1 else kw["fp"]
                self.write(st, self.abspath(f), d)
                return K(None)
            return d
        if n in ("pprint.pformat", "repr", "str", "format", "pprint.saferepr", "ascii"):
            if isinstance(a0, (Ref, J)):
                return self.dump(st, a0, n == "pprint.pformat" and kw.get("sort_dicts") != K(False))
            if isinstance(a0, K) and n in ("str", "repr"):
                return K(str(a0.v) if n == "str" else repr(a0.v))
            if isinstance(a0, P):
                return K(a0.v)
            if isinstance(a0, E) and n == "str":
                return a0
            return a0 if isinstance(a0, Dump) else V(tags_of(a0))
        if n in ("os.listdir", "os.scandir"):
            xs = self.listing(st, a0 or K("."), "listdir")
            if n == "os.scandir":
                return self.new(st, ("listing",), L(tuple(P(posixpath.join(a0.v, x)) for x in xs), (), "listing"))
            return self.new(st, ("listing",), L(tuple(K(x) for x in xs), (), "listing"))
        if n in ("glob.glob", "glob.iglob"):
            if not isinstance(a0, K):
                raise Unk("glob")
            d, pat = posixpath.split(a0.v)
            xs = [x for x in self.listing(st, K(d), "glob") if match(x, pat)]
            return self.new(st, ("listing",), L(tuple(K(posixpath.join(d, x)) for x in xs), (), "listing"))
        if n == "os.walk":
            xs = self.listing(st, a0, "walk")
            fl = self.new(st, ("walked",), L(tuple(K(x) for x in xs), (), "listing"))
            dl = self.new(st, ("walkedd",), L((), (), None))
            return T((T((a0, dl, fl)),))
        if n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PurePosixPath", "pathlib.PosixPath"):
            return P(posixpath.normpath(posixpath.join(*[x.v for x in args]))) if args else P(".")
        if n == "os.chdir":
            self.cwd = K(self.abspath(a0))
            return K(None)
        if n == "os.getcwd":
            return self.cwd
        if n.startswith("os.path."):
            m = n[8:]
            if all(isinstance(x, (K, P)) for x in args):
                if m in ("abspath", "realpath"):
                    return K(self.abspath(a0))
                if m in ("exists", "isfile", "isdir"):
                    p = self.abspath(a0)
                    d, b = posixpath.split(p)
                    if d == SUPP:
                        return K(b in self.schema and m != "isdir")
                    if d == RAW:
                        return K(b in self.files and m != "isdir")
                    if p in (DATA, RAW, SUPP):
                        return K(m != "isfile")
                    return V(frozenset())
                if m in ("join", "dirname", "basename", "split", "splitext", "normpath", "relpath"):
                    r = getattr(posixpath, m)(*[x.v for x in args])
                    return K(r)
            raise Unk("%s at line %d" % (n, self.line))
        if n in ("os.makedirs", "os.mkdir"):
            p = self.abspath(a0)
            if p != DATA:
                self.note("outside", "makes the directory %s" % p.replace(ROOT + "/", ""))
            return K(None)
        if n in ("os.remove", "os.unlink", "os.rename", "os.replace", "shutil.copy", "shutil.copyfile", "shutil.move",
                 "shutil.copy2"):
            for x in (args if n in ("os.rename", "os.replace", "shutil.move") else args[-1:]):
                p = self.abspath(x)
                if posixpath.dirname(p) != DATA:
                    self.note("outside", "%s touches %s" % (n, p.replace(ROOT + "/", "")))
            if n in ("os.rename", "os.replace", "shutil.move", "shutil.copy", "shutil.copyfile"):
                a, b = self.abspath(args[0]), self.abspath(args[1])
                self.notes = {k: v for k, v in self.notes.items() if not (k[0] == "outside" and a.replace(ROOT + "/", "") in v
                                                                         and posixpath.dirname(a) == DATA)}
                if a in st.out:
                    st.out[b] = st.out[a]
                    if n not in ("shutil.copy", "shutil.copyfile"):
                        del st.out[a]
                self.target(b)
            return K(None)
        if n in ("shutil.rmtree", "os.system", "subprocess.run", "os.rmdir", "os.chmod"):
            self.note("outside", "calls %s" % n)
            return K(None)
        if n.startswith("logging.") or n in ("print", "warnings.warn", "sys.stdout.write", "sys.stderr.write") or "logger" in n:
            if n in ("logging.getLogger",):
                return Ext("logging.logger")
            if n == "print" and isinstance(kw.get("file"), File):
                for a in args:
                    self.write(st, kw["file"].path, a if isinstance(a, Dump) else self.text([a], st))
            return K(None)
        if n == "sorted":
            return self.sort(st, a0, kw.get("key"), kw.get("reverse"))
        if n == "dict" or n in ("collections.OrderedDict",):
            o = self.new(st, ("dictc", getattr(e, "col_offset", 0)), D((), ()))
            if args:
                self.update(st, o, a0)
            for k, v in kw.items():
                self.setitem(st, o, K(k), v)
            return o
        if n == "collections.defaultdict":
            return self.new(st, ("ddict",), Obj("defaultdict", (("f", a0),))) if False else self.unk("defaultdict")
        if n in ("list", "tuple", "iter"):
            if not args:
                return self.new(st, ("listc",), L((), (), None))
            its = self.known_items(st, a0)
            if its is not None:
                o = a0 if isinstance(a0, Ref) else None
                order = st.h[o.a].order if o is not None and isinstance(st.h[o.a], L) else None
                return self.new(st, ("listc",), L(tuple(its), (), order))
            c = self.coll(st, a0)
            if c is None:
                raise Unk("list of %s" % type(a0).__name__)
            return self.new(st, ("listc",), L(None, (("all", ("coll", c)),), c.order))
        if n in ("set", "frozenset"):
            if not args:
                return self.new(st, ("setn",), Cell(()))
            its = self.known_items(st, a0)
            if its is not None:
                return self.new(st, ("setn",), Cell(tuple(dict.fromkeys(its))))
            c = self.coll(st, a0)
            return self.new(st, ("setn",), Cell((E(c, "elem"),)))
        if n in ("map", "filter"):
            its = self.known_items(st, args[1])
            if its is not None:
                rs = []
                for x in its:
                    r = self.call(st, a0, [x], {})
                    if n == "map":
                        rs.append(r)
                    else:
                        t = self.truth(r, st)
                        if t is None:
                            raise Unk("filter")
                        if t:
                            rs.append(x)
                return self.new(st, ("map",), L(tuple(rs), (), None))
            raise Unk("map")
        if n in ("enumerate", "zip", "reversed", "range", "itertools.chain"):
            if n == "range" and all(isinstance(x, K) for x in args):
                return K(tuple(range(*[x.v for x in args])))
            ls = [self.known_items(st, x) for x in args]
            if all(x is not None for x in ls):
                if n == "enumerate":
                    return T(tuple(T((K(i), x)) for i, x in enumerate(ls[0])))
                if n == "zip":
                    return T(tuple(T(tuple(x)) for x in zip(*ls)))
                if n == "reversed":
                    return T(tuple(ls[0][::-1]))
                return T(tuple(x for l in ls for x in l))
            if n == "itertools.chain":
                o = self.new(st, ("chain",), L((), (), None))
                for x in args:
                    self.extend(st, o, x)
                return o
            if n == "reversed":
                c = self.coll(st, a0)
                if c is not None:
                    return Coll(c.layers, ("reversed", c.order), c.kind)
            raise Unk(n)
        if n == "int":
            if isinstance(a0, E):
                return a0
            if isinstance(a0, K):
                try:
                    return K(int(a0.v))
                except ValueError:
                    raise Raised("ValueError")
            return V(tags_of(a0))
        if n in ("any", "all"):
            its = self.known_items(st, a0)
            if its is not None:
                ts = [self.truth(x, st) for x in its]
                if n == "any":
                    return K(True) if True in ts else K(False) if None not in ts else V(self.all_tags(its))
                return K(False) if False in ts else K(True) if None not in ts else V(self.all_tags(its))
            c = self.coll(st, a0)
            return V(layer_tags(c.layers) if c else frozenset())
        if n in ("len", "sum", "min", "max", "float", "bool", "abs", "pow", "ord", "chr", "round", "divmod", "math.log10",
                 "next", "isinstance", "hasattr"):
            if all(isinstance(x, K) for x in args) and n in ("len", "pow", "abs", "min", "max", "bool", "float", "sum", "isinstance"):
                try:
                    return K({"len": len, "pow": pow, "abs": abs, "min": min, "max": max, "bool": bool, "float": float,
                              "sum": sum, "isinstance": isinstance}[n](*[x.v for x in args]))
                except Exception:
                    pass
            its = self.known_items(st, a0)
            if n == "len" and its is not None:
                if isinstance(a0, Ref) and isinstance(st.h[a0.a], L) and st.h[a0.a].order == "listing":
                    return V(frozenset([("listing", "")]))
                return K(len(its))
            if n == "next" and its:
                return its[0]
            return V(self.all_tags(args))
        if n in ("re.sub",):
            x = args[2] if len(args) > 2 else kw["string"]
            if all(isinstance(y, K) for y in args[:3]) and len(args) >= 3:
                return K(re.sub(*[y.v for y in args[:3]]))
            return x if isinstance(x, Dump) else V(tags_of(x))
        if n.startswith("re."):
            if n == "re.compile":
                return Part(Ext("re.compiled"), (a0,), ())
            if n in ("re.IGNORECASE",):
                return K(2)
            return V(self.all_tags(args))
        if n in ("copy.deepcopy", "copy.copy"):
            return self.deep(st, a0, n == "copy.deepcopy", ())
        if n == "functools.partial":
            return Part(a0, tuple(args[1:]), tuple(kw.items()))
        if n == "operator.itemgetter":
            return Part(Ext("operator.got"), (K(tuple(x.v for x in args)),), ())
        if n == "operator.got":
            r = [self.item(st, args[1], K(i)) for i in a0.v]
            return r[0] if len(r) == 1 else T(tuple(r))
        if n in ("unicodedata.normalize",):
            x = args[1]
            return x if isinstance(x, Dump) else V(tags_of(x))
        if n in ("locale.getpreferredencoding", "locale.getlocale", "sys.getfilesystemencoding", "locale.getencoding",
                 "locale.getdefaultlocale"):
            return V(frozenset([("locale", "")]))
        if n in ("locale.strxfrm", "locale.strcoll", "functools.cmp_to_key") and n.startswith("locale"):
            return V(self.all_tags(args) | frozenset([("locale", "")]))
        if n.startswith(("os.environ", "os.getenv")):
            return V(frozenset([("environment", "")]))
        if n.startswith(("time.", "random.", "datetime.", "uuid.")):
            return V(frozenset([("chance", "")]))
        if n in ("hash", "id"):
            return V(self.all_tags(args) | frozenset([("order", "hash")]))
        if n == "dict.fromkeys":
            return self.method(st, Ext("builtins.dict"), "fromkeys", args, kw)
        raise Unk("%s at line %d" % (n, self.line))

    def unk(self, w):
        raise Unk("%s at line %d" % (w, self.line))

    def all_tags(self, vs):
        return frozenset().union(*[tags_of(x) for x in vs]) if vs else frozenset()

    def deep(self, st, v, deep, path):
        if not isinstance(v, Ref):
            return v
        x = st.h[v.a]
        if isinstance(x, D):
            es = tuple((k, self.deep(st, w, deep, path + (k,)) if deep else w, m) for k, w, m in x.ents)
            return self.new(st, ("copy",) + path, D(es, x.layers))
        if isinstance(x, L):
            its = None if x.items is None else tuple(self.deep(st, w, deep, path + (i,)) if deep else w for i, w in enumerate(x.items))
            return self.new(st, ("copy",) + path, L(its, x.layers, x.order))
        raise Unk("copy")

    def method(self, st, o, n, args, kw):
        a0 = args[0] if args else None
        if isinstance(o, Mix):
            rs = None
            q = None
            for x in o.vs:
                c = st.copy()
                rs = join_val(rs, self.method(c, x, n, list(args), kw))
                q = join(q, c)
            st.h, st.out = q.h, q.out
            return rs
        if isinstance(o, Ext):
            if o.name in ("builtins.dict", "builtins.str") and n == "fromkeys":
                d = self.new(st, ("fromkeys",), D((), ()))
                its = self.known_items(st, a0)
                if its is None:
                    c = self.coll(st, a0)
                    st.h[d.a] = D((), (("all", ("coll", c)),))
                    return d
                for x in its:
                    self.setitem(st, d, x, args[1] if len(args) > 1 else K(None))
                return d
            return self.external(st, (o.name + "." + n).replace("builtins.", ""), args, kw, None)
        if isinstance(o, Part) and o.fn == Ext("re.compiled"):
            if n in ("sub", "subn"):
                x = args[1]
                return x if isinstance(x, Dump) else V(tags_of(x))
            return V(self.all_tags(args))
        if isinstance(o, File):
            if n == "read":
                return self.read(o.path)
            if n == "write":
                self.write(st, o.path, a0 if isinstance(a0, Dump) else self.text([a0], st))
                return K(None)
            if n == "writelines":
                its = self.known_items(st, a0)
                for x in its if its is not None else [self.text([V(tags_of(self.coll(st, a0)))], st)]:
                    self.write(st, o.path, x if isinstance(x, Dump) else self.text([x], st))
                return K(None)
            if n in ("close", "flush", "truncate", "seek", "__enter__", "__exit__"):
                return o if n == "__enter__" else K(None)
            raise Unk("file method %s" % n)
        if isinstance(o, P):
            if n == "open":
                return self.open(st, o, kw.get("mode") or a0, kw.get("encoding") or (args[2] if len(args) > 2 else None))
            if n == "read_text":
                self.encoding(K("r"), kw.get("encoding") or a0)
                return self.read(self.abspath(o))
            if n == "read_bytes":
                return self.read(self.abspath(o))
            if n in ("write_text", "write_bytes"):
                if n == "write_text":
                    self.encoding(K("w"), kw.get("encoding") or (args[1] if len(args) > 1 else None))
                p = self.abspath(o)
                st.out[p] = ((), True)
                self.write(st, p, a0)
                return K(None)
            if n in ("resolve", "absolute"):
                return P(self.abspath(o))
            if n in ("joinpath",):
                return P(posixpath.join(o.v, *[x.v for x in args]))
            if n == "with_suffix":
                return P(posixpath.splitext(o.v)[0] + a0.v)
            if n == "with_name":
                return P(posixpath.join(posixpath.dirname(o.v), a0.v))
            if n in ("iterdir", "glob", "rglob"):
                xs = self.listing(st, o, n)
                if n != "iterdir":
                    xs = [x for x in xs if match(x, a0.v)]
                return self.new(st, ("listing",), L(tuple(P(posixpath.join(o.v, x)) for x in xs), (), "listing"))
            if n in ("exists", "is_file", "is_dir"):
                return self.external(st, "os.path." + {"exists": "exists", "is_file": "isfile", "is_dir": "isdir"}[n], [o], {}, None)
            if n == "mkdir":
                return self.external(st, "os.makedirs", [o], {}, None)
            if n in ("rename", "replace"):
                return self.external(st, "os.replace", [o, a0], {}, None)
            if n in ("unlink",):
                return self.external(st, "os.remove", [o], {}, None)
            if n == "as_posix":
                return K(o.v)
            raise Unk("path method %s" % n)
        if isinstance(o, K):
            if n == "format" and isinstance(o.v, str) and not all(isinstance(x, K) for x in args):
                return self.text([o] + list(args) + list(kw.values()), st)
            if n == "join":
                its = self.known_items(st, a0)
                if its is not None and all(isinstance(x, K) for x in its):
                    return K(o.v.join(x.v for x in its))
                if its is not None:
                    return self.text(its, st)
                c = self.coll(st, a0)
                return V(tags_of(c)) if c else self.unk("join")
            ks = [x for x in args]
            if all(isinstance(x, K) for x in ks) and not kw and hasattr(o.v, n):
                try:
                    r = getattr(o.v, n)(*[x.v for x in ks])
                except Exception:
                    raise Unk("%s at line %d" % (n, self.line))
                if isinstance(r, list):
                    return self.new(st, ("split", n), L(tuple(K(x) for x in r), (), None))
                if isinstance(r, (str, int, bool, tuple, bytes, type(None))):
                    return K(r)
            return self.text([o] + args, st)
        if isinstance(o, J):
            if n in ("items", "keys", "values"):
                return Meth(o, "view:" + n)
            if n == "get":
                if isinstance(a0, K) and o.kind == "raw" and self.raw_has(o, a0.v) is False or isinstance(a0, K) and \
                        o.kind == "supp" and o.path == () and a0.v not in self.schema.get(o.file, (a0.v,)):
                    return args[1] if len(args) > 1 else K(None)
                if isinstance(a0, K) and (o.kind == "raw" and len(o.path) < 3 or o.path == ()):
                    return J(o.kind, o.file, o.path + (a0.v,))
                return V(tags_of(o) | self.all_tags(args[1:]))
            if n == "copy":
                d = self.new(st, ("jcopy",), D((), ()))
                self.update(st, d, o)
                return d
            return V(tags_of(o) | self.all_tags(args))
        if isinstance(o, E):
            if n in ("items", "keys", "values"):
                return Meth(o, "view:" + n)
            return V(tags_of(o) | self.all_tags(args))
        if isinstance(o, Dump):
            return o
        if isinstance(o, V):
            if n in ("items", "keys", "values"):
                return Meth(o, "view:" + n)
            return V(o.tags | self.all_tags(args))
        if isinstance(o, Ref):
            x = st.h[o.a]
            if isinstance(x, D):
                if n in ("items", "keys", "values"):
                    return Meth(o, "view:" + n)
                if n == "update":
                    for v in args:
                        self.update(st, o, v)
                    for k, v in kw.items():
                        self.setitem(st, o, K(k), v)
                    return K(None)
                if n == "clear":
                    st.h[o.a] = D((), ())
                    return K(None)
                if n == "copy":
                    return self.new(st, ("dcopy",), x)
                if n in ("get", "setdefault", "pop"):
                    if isinstance(a0, K):
                        for k, v, m in x.ents:
                            if k == a0.v:
                                if n == "pop":
                                    st.h[o.a] = D(tuple(e for e in x.ents if e[0] != k), x.layers)
                                return v if m else join_val(v, args[1] if len(args) > 1 else K(None))
                        if not x.layers:
                            d = args[1] if len(args) > 1 else K(None)
                            if n == "setdefault":
                                self.setitem(st, o, a0, d)
                            return d
                    if n == "get" and x.ents and not x.layers:
                        r = args[1] if len(args) > 1 else K(None)
                        for k, v, m in x.ents:
                            r = join_val(r, v)
                        return r
                    if n == "setdefault":
                        if isinstance(args[1], Ref):
                            raise Unk("setdefault of a table")
                        if isinstance(a0, E) and a0.part == "key":
                            l = ("elem-absent", ("coll", a0.coll))
                        else:
                            l = ("absent", ("tags", self.all_tags(args)))
                        st.h[o.a] = D(x.ents, add_layer(x.layers, l))
                    if any(isinstance(v, Ref) for _, v, _ in x.ents):
                        raise Unk("%s under an unknown key at line %d" % (n, self.line))
                    return V(layer_tags(x.layers) | self.all_tags(args))
            if isinstance(x, L):
                if n == "append":
                    self.append(st, o, a0)
                    return K(None)
                if n == "extend":
                    self.extend(st, o, a0)
                    return K(None)
                if n == "sort":
                    r = self.sort(st, o, kw.get("key"), kw.get("reverse"))
                    st.h[o.a] = st.h[r.a]
                    return K(None)
                if n == "clear":
                    st.h[o.a] = L((), (), None)
                    return K(None)
                if n == "copy":
                    return self.new(st, ("lcopy",), x)
                if n == "remove" and isinstance(a0, K) and x.items is not None and a0 in x.items:
                    i = list(x.items)
                    i.remove(a0)
                    st.h[o.a] = L(tuple(i), (), x.order)
                    return K(None)
                if n == "reverse" and x.items is not None:
                    st.h[o.a] = L(x.items[::-1], (), x.order)
                    return K(None)
            if isinstance(x, Cell):
                if n == "add":
                    self.append(st, o, a0)
                    return K(None)
                if n == "update":
                    its = self.known_items(st, a0)
                    for y in its if its is not None else [self.element(self.coll(st, a0))]:
                        self.append(st, o, y)
                    return K(None)
        raise Unk("method %s of %s at line %d" % (n, type(o).__name__, self.line))


def match(name, pat):
    import fnmatch
    return fnmatch.fnmatchcase(name, pat)


# ------------------------------------------------------------------ the rules
SECTIONS = ("UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN")


def judge(g, st, prev, name, has_rules):
    """Findings about the table of one locale, after another one was handled before it."""
    out = []

    def bad(key, text):
        out.append((key, text))
    target = DATA + "/" + name.split(".")[0] + ".py"
    rec = st.out.get(target)
    if rec is None:
        return [("unwritten", "no table is written for %s when %s%s comes first" % (
            name, prev, "" if has_rules else " (without spell-out rules)"))]
    content, must = rec
    tables = [x for k, x in content if k == "table" and x[0] == "dict"]
    tags = frozenset().union(*[snap_tags(x) if k == "table" else x for k, x in content]) if content else frozenset()
    for t in sorted(tags, key=str):
        if t[0] in ("raw", "supp", "text:raw", "text:supp") and t[1] != name:
            bad("carried", "the table of %s takes entries of %s" % (name, t[1]))
        elif t == ("order", "hash"):
            bad("hash", "the table of %s depends on the order of a set" % name)
        elif t in (("order", "listing"), ("listing", "")):
            bad("listing", "the table of %s depends on the order of the directory listing" % name)
        elif t[0] in ("locale", "environment", "chance"):
            bad(t[0], "the table of %s depends on %s" % (name, {"locale": "the locale", "environment": "the environment",
                                                               "chance": "time or chance"}[t[0]]))
    if out:
        return out
    if len(tables) != 1 or not must:
        raise Unk("what is written to %s" % os.path.basename(target))
    s = tables[0]
    ents = {k: (v, m) for k, v, m in s[1]}
    for sec in SECTIONS + ("SKIP_TOKENS", "USE_LONG_SCALE"):
        if sec not in ents:
            if s[2]:
                raise Unk("sections under unknown keys")
            if sec in g.schema[name] or sec != "USE_LONG_SCALE":
                bad("section " + sec, "section %s is not written" % sec)
            continue
        v, m = ents[sec]
        if not m:
            raise Unk("section %s may be left out" % sec)
        if sec in SECTIONS:
            if v[0] != "dict":
                raise Unk("section %s is no table" % sec)
            f = flat(v[2])
            raw = [i for i, (md, x) in enumerate(f) if ("raw", name) in src_tags(x)]
            sup = [i for i, (md, x) in enumerate(f) if ("supp", name) in src_tags(x) and
                   (x[0] != "J" or x[3] == (sec,))]
            wrong = [x for md, x in f if x[0] == "J" and x[1] == "supp" and x[3] != (sec,)]
            if wrong:
                bad("wrong section " + sec, "section %s takes %s of the supplementary data" % (sec, "/".join(map(str, wrong[0][3]))))
            if not raw:
                bad("no raw " + sec, "no entry of the raw data reaches section %s" % sec)
            if not sup:
                bad("no supplementary " + sec, "no supplementary entry reaches section %s" % sec)
            if raw and sup:
                full = [i for i in sup if f[i][0] == "all"]
                if max(raw) > max(sup) or not full and any(f[i][0] == "absent" for i in sup if i > min(raw)):
                    bad("override " + sec, "in section %s a raw entry wins over the supplementary one" % sec)
                elif not full or max(full) < max(raw):
                    raise Unk("which entries of section %s are overridden" % sec)
            if not order_ok(v[2]):
                bad("order " + sec, "section %s is not written in the order of value and word" % sec)
        elif sec == "SKIP_TOKENS":
            if v[0] != "list":
                raise Unk("SKIP_TOKENS is no list")
            if not any(("supp", name) in src_tags(x) for md, x in flat(v[2])) and not v[1]:
                bad("no skip", "the connecting words of the supplementary data are not written")
            o = v[3]
            if not (isinstance(o, tuple) and o[0] == "sorted" and o[1] == ("elem",)) and \
                    not (isinstance(o, tuple) and o[0] == "sorted" and o[1] == "listing"):
                bad("order SKIP_TOKENS", "SKIP_TOKENS is not written in sorted order")
        else:
            if v[0] != "val" or ("supp", name) not in tags_of(v[1]):
                bad("long scale", "USE_LONG_SCALE is not the supplementary value")
    return out


def order_ok(ls):
    if not ls:
        return True
    if len(ls) != 1 or ls[0][0] not in ("all",) or ls[0][1][0] != "coll":
        return False
    o = ls[0][1][1].order
    if not (isinstance(o, tuple) and o[0] == "sorted"):
        # a copy of a sorted table
        return o is not None and order_ok(ls[0][1][1].layers) if ls[0][1][1].kind == "items" and o != "file" else False
    return o[1][:1] == ("val",) and "key" in o[1]


def loader_sections(repo):
    """Sections of a table the package reads."""
    out = set()
    with open(os.path.join(repo, "number_parser", "parser.py"), encoding="utf-8") as f:
        tree = ast.parse(f.read())
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) and \
                re.fullmatch(r"[A-Z][A-Z_]+", n.slice.value) and isinstance(n.ctx, ast.Load):
            out.add(n.slice.value)
    return out


def sources(repo):
    """Raw locale files that get a table, and the sections of each supplementary file."""
    import json
    d = os.path.join(repo, "number_parser_data")
    raw, schema = [], {}
    for f in sorted(os.listdir(os.path.join(d, "raw_cldr_translation_data"))):
        p = os.path.join(d, "supplementary_translation_data", f)
        if os.path.isfile(p):
            with open(p, encoding="utf-8") as fh:
                schema[f] = tuple(json.load(fh))
        with open(os.path.join(d, "raw_cldr_translation_data", f), encoding="utf-8") as fh:
            try:
                if json.load(fh)["rbnf"]["rbnf"]["SpelloutRules"] and f in schema:
                    raw.append(f)
            except KeyError:
                pass
    return raw, schema


def check(repo, names, name):
    """An obligation: the tables of some locales, each after another locale with and without rules."""
    from .check import Result
    R = Result(name)
    R.findings = []
    t0 = time.time()
    raw, schema = sources(repo)
    read = loader_sections(repo)
    fns = set()
    n = steps = 0
    und = []
    for b in names:
        for a in [raw[0] if raw[0] != b else raw[1], raw[-1] if raw[-1] != b else raw[-2]]:
            for missing in ((), (a,)):
                if R.findings:
                    break
                try:
                    g = Gen(repo, [a, b], set(missing), schema)
                    g.nosup = None
                    st = g.run()
                    fs = judge(g, st, a, b, not missing)
                    tables = [x for k, x in st.out.get(DATA + "/" + b.split(".")[0] + ".py", ((), 0))[0] if k == "table"]
                    have = {k for t in tables if t[0] == "dict" for k, _, _ in t[1]}
                    for sec in sorted(read - have):
                        if have and (sec != "USE_LONG_SCALE" or sec in schema[b]):
                            fs.append(("section " + sec, "section %s, which the package reads, is not written" % sec))
                except Unk as e:
                    und.append(str(e))
                    fs = []
                    if not isinstance(getattr(g, "notes", None), dict):
                        continue
                except Raised as e:
                    fs = [("raises", "the generator raises %s for %s after %s%s" % (e.cls, b, a, " (without rules)" if missing else ""))]
                    if not missing and e.cls == "Exception":
                        und.append("raises")
                        fs = []
                for (k, line), text in sorted(g.notes.items()):
                    fs.append(("%s:%d" % (k, line), "line %d %s" % (line, text)))
                n += 1
                steps += g.steps
                fns |= g.fns
                for k, text in fs:
                    f = {"key": "%s %s" % (b, k), "file": "number_parser_scripts/write_complete_language_data.py", "got": text}
                    if f not in R.findings:
                        R.findings.append(f)
    R.items = n
    R.wall = time.time() - t0
    R.stats = {"functions": sorted("write_complete_language_data." + f for f in fns), "statements": steps}
    if R.findings:
        R.status, R.why = "violation", R.findings[0]["got"]
    elif und:
        R.status, R.why = "undecided", und[0]
    else:
        R.status = "proved"
    return R
