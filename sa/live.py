"""Live variables of a function body: which locals are dead after each statement and at each exit of a loop."""
import ast


def uses(*nodes):
    out = set()
    for n in nodes:
        if n is None:
            continue
        for w in ast.walk(n):
            if isinstance(w, ast.Name) and not isinstance(w.ctx, ast.Store):
                out.add(w.id)
    return out


def defs(*nodes):
    out = set()
    for n in nodes:
        if n is None:
            continue
        for w in ast.walk(n):
            if isinstance(w, ast.Name) and isinstance(w.ctx, ast.Store):
                out.add(w.id)
    return out


def escaped(fn):
    """Names read or bound by nested functions and lambdas: never considered dead."""
    out = set()
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                for w in ast.walk(n):
                    if isinstance(w, ast.Name):
                        out.add(w.id)
                    elif isinstance(w, (ast.Nonlocal, ast.Global)):
                        out.update(w.names)
    return out


class Live:
    def __init__(self, fn, names):
        self.kill = {}                # id(stmt) -> names dead after it
        self.after = {}               # id(stmt) -> live names after it
        self.esc = escaped(fn)
        self.names = set(names) - self.esc
        if isinstance(fn.body, list):
            self.block(fn.body, set(), set(), set(), set())

    def block(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont, exc)
        return out

    def stmt(self, s, out, brk, cont, exc):
        out = set(out)
        i = self.stmt_in(s, out, brk, cont, exc) | exc
        prev = self.after.get(id(s))
        self.after[id(s)] = out if prev is None else prev | out
        if type(s) is ast.Continue:
            self.kill[id(s)] = tuple(sorted(self.names - cont))
            return i
        if type(s) in (ast.Break, ast.Return, ast.Raise):
            return i
        dead = (i | defs(s)) - self.after[id(s)]
        self.kill[id(s)] = tuple(sorted(x for x in dead if x in self.names))
        return i

    def stmt_in(self, s, out, brk, cont, exc):
        t = type(s)
        if t is ast.If:
            return uses(s.test) | self.block(s.body, out, brk, cont, exc) | self.block(s.orelse, out, brk, cont, exc)
        if t is ast.While:
            o = self.block(s.orelse, out, brk, cont, exc)
            L = uses(s.test) | o
            while True:
                n = L | self.block(s.body, L, out, L, exc)
                if n == L:
                    return L
                L = n
        if t is ast.For:
            o = self.block(s.orelse, out, brk, cont, exc)
            L = set(o)
            tg = defs(s.target) - uses(s.target)
            while True:
                n = L | (self.block(s.body, L, out, L, exc) - tg) | uses(s.target)
                if n == L:
                    return L | uses(s.iter)
                L = n
        if t is ast.Return:
            return uses(s.value)
        if t is ast.Raise:
            return uses(s.exc, s.cause) | exc
        if t is ast.Break:
            return set(brk)
        if t is ast.Continue:
            return set(cont)
        if t is ast.Try:
            fin = set()
            if s.finalbody:
                fin = self.block(s.finalbody, out | brk | cont | exc, brk, cont, exc)
                out = fin
            h = set(fin)
            for x in s.handlers:
                h |= self.block(x.body, out, brk | fin, cont | fin, exc | fin) | uses(x.type)
            o = self.block(s.orelse, out, brk | fin, cont | fin, exc | fin)
            return self.block(s.body, o, brk | fin, cont | fin, exc | h | fin) | h | fin
        if t is ast.With:
            us = set()
            for i in s.items:
                us |= uses(i.context_expr)
            return us | self.block(s.body, out, brk, cont, exc)
        if t is ast.Match:
            r = set(out) | uses(s.subject)
            for c in s.cases:
                r |= self.block(c.body, out, brk, cont, exc) | uses(c.guard, c.pattern)
            return r
        if t is ast.AugAssign:
            return out | uses(s.target, s.value) | defs(s.target)
        if t is ast.FunctionDef or t is ast.ClassDef:
            return out | uses(s)
        if t is ast.Assign:
            d = set()
            for x in s.targets:
                if isinstance(x, ast.Name):
                    d.add(x.id)
                elif isinstance(x, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in x.elts):
                    d |= defs(x)
            return (out - d) | uses(s)
        return out | uses(s)
