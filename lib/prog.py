"""The extracted program as the structural rules see it."""
import os, pickle, glob
from common import *


class Fn:
    __slots__ = ("name", "file", "line", "eline", "static", "ret", "ra", "ps",
                 "ls", "entry", "exit", "blocks", "unit", "T", "_calls",
                 "_refs", "vname", "vtype", "np", "inlined")

    def __repr__(self):
        return "%s@%s:%d" % (self.name, self.file, self.line)


class Block:
    __slots__ = ("id", "els", "term", "succ", "label", "join", "noret")


def walk(x):
    """All list nodes of an expression or statement tree."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            st.extend(z for z in y if isinstance(z, list))


class Type:
    """[spelled, kind, arg, elem, const]"""
    __slots__ = ("row", "T")


def known(x, env):
    """the value of x when it is determined by the known temporaries and
    variables, or None"""
    while x and x[0] == "c":
        x = x[2]
    if not x:
        return None
    if x[0] == "i":
        return x[1]
    if x[0] in ("t", "v"):
        return env.get((x[0], x[1]))
    if x[0] == "u" and x[1] == "!":
        v = known(x[2], env)
        return None if v is None else int(not v)
    if x[0] == "b" and x[1] in ("==", "!=", "<", ">", "<=", ">="):
        a, b = known(x[2], env), known(x[3], env)
        if a is None or b is None:
            return None
        return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b,
                    "<=": a <= b, ">=": a >= b}[x[1]])
    return None


def thread(f):
    """The value of a logical operator that is stored before it is tested:
    one copy of the block that follows for each of its values, so that what
    the operands say about the state is not lost."""
    for _ in range(40):
        for B in f.blocks.values():
            if B.els and B.els[-1][0] == "phi" and B.els[-1][3] == 1 and \
                    len(B.succ) == 1 and not B.term and B.succ[0] >= 0:
                break
        else:
            return
        _, t, x, _ = B.els.pop()
        J = f.blocks[B.succ[0]]
        top = max(f.blocks)
        new = []
        for k in (1, 0):
            C = Block()
            C.id = top + 1 + len(new)
            C.label, C.join, C.noret = None, J.join, J.noret
            C.els = [["phi", t, ["i", k], 0]] + list(J.els)
            C.term, C.succ = J.term, list(J.succ)
            env = {("t", t): k}
            for e in J.els:
                if e[0] == "decl":
                    env.pop(("v", e[1]), None)
                    v = known(e[2], env) if e[2] else None
                    if v is not None:
                        env[("v", e[1])] = v
                elif e[0] == "asg" and e[2][0] == "v":
                    env.pop(("v", e[2][1]), None)
                    v = known(e[3], env)
                    if v is not None:
                        env[("v", e[2][1])] = v
                        env[("t", e[1])] = v
                elif e[0] == "call":
                    for y in walk(e[3]):
                        if y[0] == "&" and y[1] and y[1][0] == "v":
                            env.pop(("v", y[1][1]), None)
            if J.term and J.term[1] and len(J.succ) == 2 and \
                    J.term[0] != "switch":
                v = known(J.term[1], env)
                if v is not None:
                    C.succ = [J.succ[0] if v else J.succ[1]]
                    C.term = None
            f.blocks[C.id] = C
            new.append(C.id)
        for A in list(f.blocks.values()):
            if A is B or A.id in new or not A.term or \
                    A.term[0] not in ("||", "&&"):
                continue
            k = 0 if A.term[0] == "||" else 1
            if len(A.succ) == 2 and A.succ[k] == J.id:
                A.succ = list(A.succ)
                A.succ[k] = new[k]
        B.term = ["if", x, B.term[2] if B.term else 0]
        B.succ = list(new)
        if J.id != f.entry and \
                not any(J.id in A.succ for A in f.blocks.values()):
            del f.blocks[J.id]


class Prog:
    def __init__(self, d):
        ir = IR(d)
        self.units = {}
        self.types = {u: t["t"] for u, t in ir.unit_types.items()}
        self.fns = []
        self.by_name = {}
        self.recs = ir.recs
        self.rec_unit = {n: r["unit"] for n, r in ir.recs.items()}
        self.gvs = ir.gvs
        self.decls = ir.decls
        self.switches = ir.switches
        self.enums = {}
        for e in ir.enums:
            self.enums.setdefault(e["name"] or
                                  "%s:%d" % (e["file"], e["line"]), e)
        self.dups = 0
        for o in ir.fns:
            f = Fn()
            for k in ("name", "file", "line", "eline", "static", "ret", "ra",
                      "ps", "ls", "entry", "exit", "unit"):
                setattr(f, k, o[k])
            f.inlined = set(o.get("inlined", ()))
            f.T = self.types[f.unit]
            f.np = len(f.ps)
            f.vname = {i: p[0] for i, p in enumerate(f.ps)}
            f.vtype = {i: p[1] for i, p in enumerate(f.ps)}
            for l in f.ls:
                f.vname[l[0]] = l[1]
                f.vtype[l[0]] = l[2]
            f.blocks = {}
            for b in o["bl"]:
                B = Block()
                B.id, B.els, B.term, B.succ, B.label, B.join, B.noret = b
                f.blocks[B.id] = B
            thread(f)
            f._calls = f._refs = None
            # inline functions of headers appear in every unit
            old = self.by_name.get(f.name, [])
            if any(g.file == f.file and g.line == f.line and
                   not f.file.endswith("_templ.c") for g in old):
                self.dups += 1
                continue
            self.by_name.setdefault(f.name, []).append(f)
            self.fns.append(f)

    # ---- helpers
    def ty(self, f, t):
        """(spelled, kind, arg, elem index) of type index t."""
        return f.T[t] if t is not None and t >= 0 else ["?", "o", None, -1]

    def pointee_rec(self, f, t):
        """record name that type t (a pointer) points to, or None"""
        r = self.ty(f, t)
        if r[1] != "p":
            return None
        e = self.ty(f, r[3])
        return e[2] if e[1] == "r" else None

    def stmts(self, f):
        for b in f.blocks.values():
            for e in b.els:
                yield b, e

    def calls(self, f):
        """(name or None, args, line, temp, callee node, block) per call"""
        if f._calls is None:
            r = []
            for b in f.blocks.values():
                for e in b.els:
                    if e[0] == "call":
                        nm = e[2] if isinstance(e[2], str) else None
                        r.append((nm, e[3], e[4], e[1], e[2], b))
            f._calls = r
        return f._calls

    def refs(self, f):
        """names of functions called or referred to"""
        if f._refs is None:
            r = set()
            for b in f.blocks.values():
                for x in walk(b.els + [b.term]):
                    if x[0] == "f" and len(x) > 1 and isinstance(x[1], str):
                        r.add(x[1])
                    elif x[0] == "call" and isinstance(x[2], str):
                        r.add(x[2])
            f._refs = r
        return f._refs

    def targets(self, f, name):
        """the definitions a direct call of name in f may reach"""
        gs = self.by_name.get(name, []) if isinstance(name, str) else []
        if len(gs) > 1:
            own = [g for g in gs if g.unit == f.unit]
            return own or gs
        return gs

    def callers(self):
        if not hasattr(self, "_callers"):
            c = {}
            for f in self.fns:
                for g in self.refs(f):
                    c.setdefault(g, []).append(f)
            for g in self.gvs:
                if g.get("init"):
                    for x in walk(g["init"]):
                        if x[0] == "f":
                            c.setdefault(x[1], []).append(None)
            self._callers = c
        return self._callers

    def static_names(self):
        if not hasattr(self, "_st"):
            self._st = {f.name for f in self.fns if f.static}
        return self._st

    def public(self):
        """Names declared in the installed headers."""
        if not hasattr(self, "_pub"):
            self._pub = {d["name"] for d in self.decls
                         if d["file"].startswith("include/isl/")}
        return self._pub


_cache = {}


def program(d=None):
    if d is None:
        d = extract()[0]
    if d not in _cache:
        _cache[d] = Prog(d)
    return _cache[d]


def defs_of(f):
    """temp -> defining statement, for temps defined exactly once"""
    r = {}
    for b in f.blocks.values():
        for e in b.els:
            if e[0] in ("call", "asg", "casg", "inc"):
                r[e[1]] = e
    return r


def root(x):
    """The variable an lvalue is rooted at, and whether through a pointer."""
    thru = False
    while True:
        k = x[0]
        if k == "m":
            thru = thru or x[4] == 1
            x = x[1]
        elif k == "x":
            thru = True
            x = x[1]
        elif k == "*":
            thru = True
            x = x[1]
        elif k == "c":
            x = x[2]
        elif k == "&":
            x = x[1]
        elif k == "b" and x[1] in ("+", "-"):
            x = x[2]
        else:
            return x, thru


FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


_single = {}


def single_def(f, v):
    """The expression local variable v is given in its only assignment."""
    if f not in _single:
        _single[f] = sd = {}
        for b in f.blocks.values():
            for e in b.els:
                x = rhs = None
                if e[0] == "asg" and e[2][0] == "v":
                    x, rhs = e[2][1], e[3]
                elif e[0] == "decl" and e[2]:
                    x, rhs = e[1], e[2]
                elif e[0] in ("casg", "inc") and e[3][0] == "v":
                    x, rhs = e[3][1], None
                if x is not None:
                    sd[x] = None if x in sd or x < len(f.ps) else rhs
    return _single[f].get(v)


def facts(f, cond, truth=True, D=None, depth=0):
    """The comparisons (op, left, right) that hold when cond is truth."""
    if D is None:
        D = defs_of(f)
    while cond and cond[0] == "c":
        cond = cond[2]
    if not cond or depth > 8:
        return []
    if cond[0] == "u" and cond[1] == "!":
        return facts(f, cond[2], not truth, D, depth + 1)
    if cond[0] == "b" and cond[1] in FLIP:
        op = cond[1] if truth else NEG[cond[1]]
        r = [(op, cond[2], cond[3]), (FLIP[op], cond[3], cond[2])]
        for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
            while y and y[0] == "c":
                y = y[2]
            if y[0] == "n" or y[0] == "i" and y[1] == 0:
                if op in ("==", "!="):
                    r += facts(f, x, op == "!=", D, depth + 1)
        return r
    r = [("!=" if truth else "==", cond, ["i", 0])]
    if cond[0] == "t":
        d = D.get(cond[1])
        if d and d[0] == "asg":
            r += facts(f, d[3], truth, D, depth + 1)
    elif cond[0] == "v":
        d = single_def(f, cond[1])
        if d:
            r += facts(f, d, truth, D, depth + 1)
    return r
