"""Counted arrays: an element of an array that is a field of an object is
only accessed where the number of elements the object holds is known to be
sufficient."""
import json, os
from prog import *
from rules_effects import Out
from rules_struct import settled, uncast, loc, load_rules, INTT

COUNT = INTT | {"size_t", "long", "uint32_t"}


def holds(v, op, k):
    return {"<": v < k, "<=": v <= k, ">": v > k, ">=": v >= k,
            "==": v == k, "!=": v != k}[op]


class Counts:
    """Which counts were examined on every path to a point.

    The bits are (rec, field, 1): some condition depended on the field;
    (rec, field, 2): the field is known to be at least one, or some index to
    be smaller than it."""

    def __init__(self, P):
        self.P = P
        self.intf = {}
        for rec, R in P.recs.items():
            T = P.types[R["unit"]]
            self.intf[rec] = {x[0] for x in R["fs"] if T[x[1]][0] in COUNT}
        self.RD, self.RET, self.DEFS, self.SUM, self.BITS = \
            {}, {}, {}, {}, {}

    def isf(self, x):
        return x[0] == "m" and x[2] in self.intf.get(x[3], ())

    def fieldsread(self, f, depth=3):
        """the counts f looks at, or functions it calls up to depth"""
        k = (f.unit, f.name, depth)
        if k in self.RD:
            return self.RD[k]
        self.RD[k] = r = set()
        for b in f.blocks.values():
            for x in walk(b.els + [b.term]):
                if self.isf(x):
                    r.add((x[3], x[2]))
        if depth > 0:
            for c in self.P.calls(f):
                for g in self.P.targets(f, c[0]):
                    if len(g.blocks) <= 40:
                        r |= self.fieldsread(g, depth - 1)
        return r

    def defs(self, f):
        k = (f.unit, f.name)
        if k not in self.DEFS:
            D = dict(defs_of(f))
            V = {}
            for b in f.blocks.values():
                for e in b.els:
                    if e[0] == "phi":
                        D.setdefault(e[1], e)
                    elif e[0] == "asg" and e[2][0] == "v":
                        V.setdefault(e[2][1], []).append(e[3])
                    elif e[0] == "decl" and e[2]:
                        V.setdefault(e[1], []).append(e[2])
            self.DEFS[k] = D, V
        return self.DEFS[k]

    def mentioned(self, f, cond):
        """the fields the condition depends on"""
        D, V = self.defs(f)
        r, todo, seen = set(), [cond], set()
        while todo:
            for x in walk(todo.pop()):
                if self.isf(x):
                    r.add((x[3], x[2]))
                elif x[0] == "t" and x[1] not in seen:
                    seen.add(x[1])
                    d = D.get(x[1])
                    if not d:
                        continue
                    if d[0] == "call":
                        for g in self.P.targets(f, d[2]):
                            r |= self.fieldsread(g)
                    else:
                        todo.append(d[2] if d[0] == "phi" else d[3])
                elif x[0] == "v" and ("v", x[1]) not in seen:
                    seen.add(("v", x[1]))
                    todo += V.get(x[1], [])
        return r

    def rets(self, g):
        """the fields whose value g returns"""
        k = (g.unit, g.name)
        if k in self.RET:
            return self.RET[k]
        self.RET[k] = set()
        r = set()
        if len(g.blocks) <= 30:
            for b in g.blocks.values():
                for e in b.els:
                    if e[0] == "ret" and e[1]:
                        r |= self.value(g, e[1])
        self.RET[k] = r
        return r

    def value(self, f, x, depth=0):
        """the fields x holds the value of, with what was added"""
        x = uncast(x)
        if not x or depth > 8:
            return set()
        if self.isf(x):
            return {(x[3], x[2], 0)}
        D, V = self.defs(f)
        r = set()
        if x[0] == "t":
            d = D.get(x[1])
            if not d:
                return r
            if d[0] == "call":
                for g in self.P.targets(f, d[2]):
                    r |= self.rets(g)
                return r
            if d[0] == "asg":
                return self.value(f, d[3], depth + 1)
            if d[0] == "phi":
                return self.value(f, d[2], depth + 1)
            if d[0] == "inc":
                k = {"p--": 0, "--p": -1, "p++": 0, "++p": 1,
                     "--": -1, "++": 1}.get(d[2], 0)
                return {(a, b, c + k)
                        for a, b, c in self.value(f, d[3], depth + 1)}
        elif x[0] == "v":
            for d in V.get(x[1], []):
                r |= self.value(f, d, depth + 1)
        elif x[0] == "b" and x[1] in ("+", "-"):
            y = uncast(x[3])
            if y[0] == "i":
                k = y[1] if x[1] == "+" else -y[1]
                return {(a, b, c + k)
                        for a, b, c in self.value(f, x[2], depth + 1)}
        return r

    def implied(self, f, cond, truth):
        """bits that hold when cond is truth"""
        return self.of_facts(f, facts(f, cond, truth, self.defs(f)[0]))

    def of_facts(self, f, fs):
        r = set()
        D = self.defs(f)[0]
        for op, x, y in fs:
            t, y0 = uncast(x), uncast(y)
            if t[0] == "t" and y0[0] in ("i", "n"):
                d = D.get(t[1])
                if d and d[0] == "call":
                    r |= self.after(f, d[2], op, y0[1] if y0[0] == "i" else 0)
            for a, b, k in self.value(f, y):
                x0 = uncast(x)
                c = x0[1] if x0[0] == "i" else None
                # x op field + k
                if op == "<" and (c is None and k <= 0 or
                                  c is not None and c - k >= 0) or \
                        op in ("<=", "==") and c is not None and c - k >= 1 \
                        or op == "!=" and (c is None or c - k == 0):
                    r.add((a, b, 2))
                if op in ("<=", "==") and c is None:
                    r.add((a, b, 2 if k < 0 else 3))
                # counting down from field + k
                if c is not None and (op == "<=" and c >= 0 or
                                      op == "<" and c >= -1) and k < 0:
                    r.add((a, b, 2))
        return r

    def const(self, f, x, depth=0):
        """the constant x is, or None"""
        x = uncast(x)
        if not x or depth > 4:
            return None
        if x[0] == "i":
            return x[1]
        if x[0] == "n":
            return 0
        if x[0] == "b" and x[1] in ("+", "-"):
            a = self.const(f, x[2], depth + 1)
            b = self.const(f, x[3], depth + 1)
            if a is None or b is None:
                return None
            return a + b if x[1] == "+" else a - b
        D, V = self.defs(f)
        if x[0] == "t":
            d = D.get(x[1])
            if d and d[0] == "call" and len(d[3]) == 1:
                # isl_stat_non_null and the like do not matter here
                return None
            if d and d[0] == "asg":
                return self.const(f, d[3], depth + 1)
        elif x[0] == "v":
            d = single_def(f, x[1])
            return self.const(f, d, depth + 1) if d else None
        return None

    def after(self, f, name, op, k):
        """the bits that hold after a call of name the result of which
        satisfies op k"""
        r = None
        for g in self.P.targets(f, name):
            for v, bits in self.returns(g):
                if v is not None and not holds(v, op, k):
                    continue
                r = bits if r is None else r & bits
        return r or set()

    def returns(self, g):
        """(constant or None, bits) per return of g"""
        key = (g.unit, g.name)
        if key not in self.SUM:
            self.SUM[key] = []
            if len(g.blocks) > 40:
                return []
            IN = self.bits(g)
            r = []
            D = self.defs(g)[0]
            for b in g.blocks.values():
                for e in b.els:
                    if e[0] != "ret" or b.id not in IN or e[1] is None:
                        continue
                    s = set(IN[b.id])
                    c = self.const(g, e[1])
                    x = uncast(e[1])
                    d = D.get(x[1]) if x[0] == "t" else None
                    if c is None and d and d[0] == "call":
                        # the result of another call is passed on
                        for h in self.P.targets(g, d[2]):
                            for v, bits in self.returns(h):
                                r.append((v, s | bits))
                        if any(self.returns(h)
                               for h in self.P.targets(g, d[2])):
                            continue
                    r.append((c, s))
            self.SUM[key] = r
        return self.SUM[key]

    def bits(self, f):
        """the bits that hold on entry to each block"""
        if (f.unit, f.name) not in self.BITS:
            self.BITS[(f.unit, f.name)] = self.bits_(f)
        return self.BITS[(f.unit, f.name)]

    def bits_(self, f):
        gen = {}
        for b in f.blocks.values():
            n = len([s for s in b.succ if s is not None])
            if not b.term or not b.term[1] or n < 2:
                continue
            m = {(x, y, 1) for x, y in self.mentioned(f, b.term[1])}
            for i in range(len(b.succ)):
                g = set(m)
                if b.term[0] != "switch" and len(b.succ) == 2:
                    g |= self.implied(f, b.term[1], i == 0)
                elif b.term[0] == "switch" and b.succ[i] in f.blocks:
                    l = f.blocks[b.succ[i]].label
                    if l and l[0] == "case" and len(l) == 2:
                        g |= self.of_facts(f, [("==", ["i", l[1]],
                                                b.term[1])])
                gen[(b.id, i)] = g
        IN, work = {f.entry: frozenset()}, [f.entry]
        while work:
            n = work.pop()
            for i, s in enumerate(f.blocks[n].succ):
                if s is None or s not in f.blocks:
                    continue
                o = IN[n] | gen.get((n, i), frozenset())
                new = frozenset(o) if s not in IN else IN[s] & o
                if s not in IN or new != IN[s]:
                    IN[s] = new
                    work.append(s)
        return IN

    def accesses(self, f):
        """(block, rec, field, index, line)"""
        r = []
        for b in f.blocks.values():
            line = f.line
            for e in b.els + [b.term or []]:
                if not e:
                    continue
                if e[0] == "call":
                    line = e[4]
                elif isinstance(e[-1], int) and e[-1] > 0:
                    line = e[-1]
                for x in walk(e):
                    if x[0] == "x":
                        base, idx = x[1], x[2]
                    elif x[0] == "b" and x[1] == "+" and len(x) > 4 and \
                            x[4] is not None and x[4] >= 0 and \
                            f.T[x[4]][1] == "p":
                        continue
                    elif x[0] == "*":
                        continue
                    else:
                        continue
                    base, idx = uncast(base), uncast(idx)
                    if base and base[0] == "m":
                        r.append((b.id, base[3], base[2], idx, line))
        return r


def rec_key(P, rec):
    """a name for rec that does not depend on line numbers"""
    if rec.startswith("anon@"):
        return "%s{%s}" % (rec.split(":")[0], ",".join(
            x[0] for x in P.recs[rec]["fs"]))
    return rec


def levels(P, C, pairs, given=False):
    """per (function, array, kind of index): the lowest level of an access"""
    for f in P.fns:
        if not settled(P, f):
            continue
        A = [(b, pairs[k], k, i, l) for b, rec, arr, i, l in C.accesses(f)
             for k in ("%s.%s" % (rec_key(P, rec), arr),) if k in pairs]
        if not A:
            continue
        B = C.bits(f)
        for b, sizes, k, i, line in A:
            if b not in B:
                continue
            rec = sizes[0]
            lv = 0
            for r, x, n in B[b]:
                if x not in sizes[1] or not (
                        rec_key(P, r) == rec or rec[-1] == "*" and
                        r.startswith(rec[:-1])):
                    continue
                if n == 3:
                    n = 2 if i[0] == "b" and i[1] == "-" else 1
                lv = max(lv, n)
            if given and not from_parameter(C, f, i):
                continue
            yield f, k, "c" if i[0] == "i" else "v", lv, line


def from_parameter(C, f, i):
    """Is index i computed from an integer parameter of f?"""
    D, V = C.defs(f)
    todo, seen = [i], set()
    while todo:
        for x in walk(todo.pop()):
            if x[0] == "v" and x[1] < len(f.ps) and \
                    f.T[f.ps[x[1]][1]][0] in INTT:
                return True
            k = (x[0], x[1]) if x[0] in ("v", "t") else None
            if not k or k in seen:
                continue
            seen.add(k)
            if x[0] == "v":
                todo += V.get(x[1], [])
            else:
                d = D.get(x[1])
                if d and d[0] == "call":
                    todo += [a for a in d[3] if uncast(a)[0] in "vtib"]
                elif d:
                    todo.append(d[2] if d[0] == "phi" else d[3])
    return False


def exact(C, f, x):
    """the field x holds the value of, and what was added, if certain"""
    x = uncast(x)
    if x and x[0] == "v":
        x = single_def(f, x[1])
    if not x:
        return None
    r = C.value(f, x)
    return next(iter(r)) if len(r) == 1 else None


def beyond(P, C, pairs, out):
    """An index that was only compared with "<=" to the count.

    The state maps a variable to the last thing that is known about it:
    (record, field, "<") or (record, field, "<=")."""
    for f in P.fns:
        if not settled(P, f):
            continue
        A = [a for a in C.accesses(f) if a[3][0] == "v"]
        if not A:
            continue
        want = {}
        for b, rec, arr, i, line in A:
            k = "%s.%s" % (rec_key(P, rec), arr)
            if k in pairs:
                want.setdefault(b, []).append((k, rec, i[1], line))
        if not want:
            continue
        kills = {}
        for b in f.blocks.values():
            kills[b.id] = {e[2][1] if e[0] == "asg" else
                           e[1] if e[0] == "decl" else e[3][1]
                           for e in b.els
                           if e[0] == "asg" and e[2][0] == "v" or
                           e[0] == "decl" or
                           e[0] in ("inc", "casg") and e[3][0] == "v"}
        written = {}
        for b in f.blocks.values():
            written[b.id] = {
                l[2] for e in b.els if e[0] in ("asg", "casg", "inc")
                for l in (e[2] if e[0] == "asg" else e[3],) if l[0] == "m"}
        gen = {}
        for b in f.blocks.values():
            if not b.term or not b.term[1] or len(b.succ) != 2 or \
                    b.term[0] == "switch":
                continue
            for t in (0, 1):
                g = {}
                for op, x, y in facts(f, b.term[1], t == 0, C.defs(f)[0]):
                    x = uncast(x)
                    if x[0] == "t":
                        d = C.defs(f)[0].get(x[1])
                        if d and d[0] == "asg":
                            x = uncast(d[3])
                    if x[0] != "v" or op not in ("<", "<=", "!=", "=="):
                        continue
                    c = exact(C, f, y)
                    if not c:
                        continue
                    if op == "<=" and c[2] == 0 and x[1] not in g:
                        g[x[1]] = (c[0], c[1], "<=")
                    elif op != "==" and c[2] <= 0:
                        g[x[1]] = (c[0], c[1], "<")
                gen[(b.id, t)] = g
        if not any(v[2] == "<=" for g in gen.values() for v in g.values()):
            continue
        IN, work = {f.entry: {}}, [f.entry]
        while work:
            n = work.pop()
            o = {v: s for v, s in IN[n].items() if v not in kills[n] and s[1] not in written[n]}
            for i, s in enumerate(f.blocks[n].succ):
                if s is None or s not in f.blocks:
                    continue
                w = dict(o)
                for v, x in gen.get((n, i), {}).items():
                    if x[2] == "<" or w.get(v, (0, 0, 0))[2] != "<":
                        w[v] = x
                if s in IN:
                    w = {v: x for v, x in IN[s].items() if w.get(v) == x}
                    if w == IN[s]:
                        continue
                IN[s] = w
                work.append(s)
        for b, l in want.items():
            for k, rec, v, line in l:
                if v in kills[b]:
                    continue
                s = IN.get(b, {}).get(v)
                if s and s[1] not in written[b] and s[2] == "<=" and s[1] in pairs[k][1] and (
                        rec_key(P, s[0]) == pairs[k][0] or
                        pairs[k][0][-1] == "*"):
                    out.v("index-may-equal-count", f.name, loc(f, line),
                          "the index of an element of %s may be equal to the "
                          "number of elements" % k)


def given_positions(out):
    """As counts, for positions that are arguments of the function."""
    counts(out, True)


def counts(out, given=False):
    P = program()
    C = Counts(P)
    cfg = load_rules("counts.json")
    base = cfg["weaker"]
    for f, k, kind, lv, line in levels(P, C, cfg["pairs"], given):
        out.count("accesses to elements of counted arrays")
        want = base.get(f.name, {}).get(k, {}).get(kind, 2)
        if want < 2:
            out.count("accesses with a weaker obligation, as listed")
        if lv < want:
            out.v("element-without-count", f.name, loc(f, line),
                  "an element of %s is accessed on a path on which %s" %
                  (k, "its number of elements was not looked at" if lv < 1
                   else "its number of elements is not known to be large "
                   "enough"))
    if given:
        out.floor("accesses to elements of counted arrays", 700)
        return
    beyond(P, C, dict(cfg["pairs"], **{
        "isl_mat.row": ["isl_mat", ["n_row"]],
        "isl_vec.el": ["isl_vec", ["size"]]}), out)
    out.count("counted arrays", len(cfg["pairs"]))
    out.floor("accesses to elements of counted arrays", 2500)


# ---- every element ---------------------------------------------------------

def short_of(C, f, y, depth=0):
    """The call x is the result of, and what was added"""
    y = uncast(y)
    if not y or depth > 6:
        return None
    if y[0] == "b" and y[1] in "+-" and uncast(y[3])[0] == "i":
        r = short_of(C, f, y[2], depth + 1)
        k = uncast(y[3])[1]
        return r and (r[0], r[1], r[2] + (k if y[1] == "+" else -k))
    if y[0] == "t":
        d = C.defs(f)[0].get(y[1])
        if d and d[0] == "asg":
            return short_of(C, f, d[3], depth + 1)
        if d and d[0] == "call" and isinstance(d[2], str):
            return ("", d[2], 0)
    if y[0] == "v":
        d = single_def(f, y[1])
        return short_of(C, f, d, depth + 1) if d else None
    return None


class Cover:
    """Loops over arrays that leave out elements at either end."""

    def __init__(self, P):
        self.P, self.C = P, Counts(P)

    def size(self, f, x):
        """number of elements of the array type of member access x"""
        t = f.T[x[5]] if x[5] is not None and x[5] >= 0 else None
        if not t or t[1] != "a":
            return None
        n = t[0].rsplit("[", 1)[-1].rstrip("]")
        return int(n) if n.isdigit() else None

    def accesses(self, f):
        r = []
        for b in f.blocks.values():
            line = f.line
            for e in b.els + [b.term or []]:
                if not e:
                    continue
                if e[0] == "call":
                    line = e[4]
                elif isinstance(e[-1], int) and e[-1] > 0:
                    line = e[-1]
                for x in walk(e):
                    if x[0] != "x":
                        continue
                    base, idx = uncast(x[1]), uncast(x[2])
                    if base and base[0] == "m":
                        r.append((b.id, base, idx, line))
                if e[0] != "call" or not isinstance(e[2], str) or \
                        len(e[3]) < 2 or not e[2].startswith("isl_"):
                    continue
                # an element that is accessed by position
                for g in self.P.targets(f, e[2])[:1]:
                    rec = g.ps and self.P.pointee_rec(g, g.ps[0][1])
                    if not rec:
                        continue
                    for i, a in enumerate(e[3][1:], 1):
                        if i >= len(g.ps) or g.T[g.ps[i][1]][0] not in INTT:
                            continue
                        if i + 1 < len(g.ps) and g.T[g.ps[i + 1][1]][0] == \
                                "unsigned int":
                            continue    # the start of a range
                        a = uncast(a)
                        if a[0] == "t":
                            d = self.C.defs(f)[0].get(a[1])
                            if d and d[0] == "asg":
                                a = uncast(d[3])
                        r.append((b.id, ["m", None, e[2], rec, 1, None, 0],
                                  a, line))
        return r

    def key(self, base):
        return (base[3], base[2] if base[1] else "()")

    def origin(self, f, x, inl, depth=0):
        """how far from some value a loop starts that does not start at a
        constant, or None if the value is only passed on to or back from
        what was moved to a function of its own"""
        x = uncast(x)
        if x[0] == "t" and depth < 6:
            d = self.C.defs(f)[0].get(x[1])
            if d and d[0] in ("asg", "phi"):
                return self.origin(f, d[3 if d[0] == "asg" else 2], inl,
                                   depth + 1)
        if x[0] == "v" and depth < 7 and (inl or x[1] in f.inlined):
            return None
        if x[0] == "b" and x[1] in "+-":
            k = self.C.const(f, x[3])
            if k is not None:
                o = int(self.origin(f, x[2], inl, 7)[4:] or 0) + \
                    (k if x[1] == "+" else -k)
                return "from%+d" % o if o else "from"
        return "from"

    def partial(self, f):
        """(array, what, line) per loop that leaves out elements"""
        C = self.C
        A = self.accesses(f)
        loops = {}
        D, V = C.defs(f)
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "inc" and e[3][0] == "v":
                    loops.setdefault(e[3][1], set()).add(
                        1 if "+" in e[2] else -1)
                elif e[0] == "casg" and e[3][0] == "v":
                    k = uncast(e[4])
                    k = k[1] if k[0] == "i" else None
                    if e[2] in ("-", "-=") and k is not None:
                        k = -k
                    loops.setdefault(e[3][1], set()).add(k)
                elif e[0] == "asg" and e[2][0] == "v":
                    x = uncast(e[3])
                    if x[0] == "b" and x[1] in "+-" and \
                            uncast(x[2]) == e[2] and uncast(x[3])[0] == "i":
                        k = uncast(x[3])[1]
                        loops.setdefault(e[2][1], set()).add(
                            k if x[1] == "+" else -k)
        vs = {a[2][1] for a in A if a[2][0] == "v" and a[2][1] in loops}
        if not vs:
            return
        # elements that are accessed by other means
        const, other = {}, {}
        for b, base, idx, line in A:
            k = self.key(base)
            if idx[0] == "i":
                const.setdefault(k, set()).add(idx[1])
            elif idx[0] != "v" or idx[1] not in loops:
                other.setdefault(k, []).append(idx)
        # state: variable -> (initial constants, upper, lower)
        #   upper: None, or (field or None for a constant, offset)
        def step(n, s):
            for e in f.blocks[n].els:
                v = rhs = None
                if e[0] == "asg" and e[2][0] == "v":
                    v, rhs = e[2][1], e[3]
                    x = uncast(rhs)
                    if x[0] == "b" and uncast(x[2]) == e[2]:
                        rhs = None
                elif e[0] == "decl":
                    v, rhs = e[1], e[2]
                elif e[0] in ("inc", "casg") and e[3][0] == "v":
                    v = e[3][1]
                if v not in vs:
                    continue
                if rhs is None and e[0] != "decl":
                    i, u, l = s.get(v, (frozenset(), None, None))
                    s[v] = (i, None, None)
                    continue
                c = C.const(f, rhs) if rhs else None
                if c is None and rhs:
                    c = self.origin(f, rhs, v in f.inlined)
                s[v] = (frozenset([c]), None, None)
            return s

        def edge(n, i, s):
            b = f.blocks[n]
            if not b.term or not b.term[1] or len(b.succ) != 2 or \
                    b.term[0] == "switch":
                return s
            for op, x, y in facts(f, b.term[1], i == 0, D):
                x, y = uncast(x), uncast(y)
                if x[0] == "t" and D.get(x[1]) and D[x[1]][0] == "asg":
                    x = uncast(D[x[1]][3])
                if x[0] != "v" or x[1] not in vs:
                    continue
                I, u, l = s.get(x[1], (frozenset(), None, None))
                k = C.const(f, y)
                if op in ("<", "<="):
                    d = 1 if op == "<=" else 0
                    if k is not None:
                        u = (None, k + d)
                    else:
                        c = exact(C, f, y) or short_of(C, f, y)
                        if c and (u is None or u[0] is not None):
                            u = ((c[0], c[1]), c[2] + d)
                elif op in (">", ">=") and k is not None:
                    l = k + (1 if op == ">" else 0)
                elif op == "!=" and k == 0 and loops[x[1]] == {-1}:
                    l = 1
                s[x[1]] = (I, u, l)
            return s

        IN, work = {f.entry: {}}, [f.entry]
        while work:
            n = work.pop()
            o = step(n, dict(IN[n]))
            for i, t in enumerate(f.blocks[n].succ):
                if t is None or t not in f.blocks:
                    continue
                w = edge(n, i, dict(o))
                if t in IN:
                    m = {}
                    for v in set(w) | set(IN[t]):
                        a, b = IN[t].get(v), w.get(v)
                        if a is None or b is None:
                            m[v] = ((a or b)[0] | {None}, None, None)
                        else:
                            m[v] = (a[0] | b[0],
                                    a[1] if a[1] == b[1] else None,
                                    a[2] if a[2] == b[2] else None)
                    if m == IN[t]:
                        continue
                    w = m
                IN[t] = w
                work.append(t)
        for b, base, idx, line in A:
            if idx[0] != "v" or idx[1] not in vs or b not in IN:
                continue
            v = idx[1]
            s = step(b, dict(IN[b])).get(v)
            # the value may have been changed in the block itself: then
            # nothing is known
            if not s:
                continue
            I, u, l = IN[b].get(v, s)
            key = self.key(base)
            name = "%s.%s" % (rec_key(self.P, base[3]), base[2])
            # the element next to the current one is accessed as well
            near = any(o[0] == "b" and ["v", v] in (uncast(o[2]), uncast(o[3]))
                       for o in other.get(key, ()))
            last = any(o[0] == "b" and o[1] == "-" or o[0] in ("t", "m")
                       for o in other.get(key, ()))
            fromv = any(o[0] == "v" for o in other.get(key, ()))
            up = loops[v] == {1}
            if None in loops[v] or any(abs(x) > 1 for x in loops[v]):
                if {x for x in loops[v] if x is not None and abs(x) > 1} and \
                        not near:
                    yield name, "step", line
                continue
            for c in I:
                if isinstance(c, str):
                    if up:
                        yield name, c, line
                    continue
                if c is not None and c > 0 and up and not near and \
                        not set(range(c)) <= const.get(key, set()):
                    yield name, "start", line
                    break
            if up and u and u[0] and u[1] < 0 and not near and not last and \
                    not fromv:
                yield name, "end", line
            n = self.size(f, base)
            if up and u and u[0] is None and n and u[1] < n and \
                    not set(range(u[1], n)) <= const.get(key, set()) and \
                    not near and not last:
                yield name, "end", line
            if loops[v] == {-1} and l and l > 0 and not near and \
                    not set(range(l)) <= const.get(key, set()):
                yield name, "start", line


def loop_kind(P, f, memo={}):
    if "d" not in memo:
        from rules_struct import destructors
        memo["d"] = {(g.unit, g.name) for g, r in destructors(P)}
    import re
    if (f.unit, f.name) in memo["d"] or f.name.endswith("_free"):
        return "C14"
    if re.search(r"_dup$|_copy$|(^|_)(plain_)?is_equal$|_plain_cmp$|_hash$", f.name):
        return "C15"
    return None


WHAT = {"start": "leaves out elements at the start of",
        "end": "leaves out elements at the end of",
        "step": "leaves out elements in between of"}


def coverage(out, kind=None):
    P = program()
    K = Cover(P)
    ok = load_rules("partial.json")
    starts = load_rules("starts.json")
    for f in P.fns:
        if not settled(P, f) or kind and loop_kind(P, f) != kind:
            continue
        A = K.accesses(f)
        if not A:
            continue
        out.count("functions with accesses to arrays of objects")
        out.count("accesses to elements of arrays of objects", len(A))
        seen = set()
        for name, what, line in K.partial(f):
            if (name, what) in seen:
                continue
            seen.add((name, what))
            if what in ok.get(f.name, {}).get("loops", {}).get(name, []):
                out.count("partial loops, as listed")
                continue
            if what.startswith("from"):
                if f.name not in P._base:
                    continue
                if what in starts.get(f.name, {}).get(name, []):
                    out.count("loops over the remaining elements, as listed")
                    continue
                out.v("elements-left-out", f.name, loc(f, line),
                      "a loop over %s starts at the value of an expression%s "
                      "instead of the first element" %
                      (name, " (%s)" % what[4:] if what[4:] else ""))
                continue
            out.v("elements-left-out", f.name, loc(f, line),
                  "a loop %s %s" % (WHAT[what], name))
    out.floor("accesses to elements of arrays of objects",
              {None: 12000, "C14": 40, "C15": 150}[kind])


def all_elements(out):
    coverage(out)
