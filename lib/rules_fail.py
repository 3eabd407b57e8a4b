"""C05: failures that nobody looks at.

A function that is able to report a failure is called, and what it reports is
thrown away; or, in a function that returns nothing, it is never tested for
being a failure.  The engine follows failures that are tested for on some
path; this rule looks at the ones that are not."""
import fnmatch
from prog import program, walk, defs_of, facts
from rules_struct import settled, uncast, loc, load_rules

STATUS = ("isl_stat", "isl_bool", "isl_size")


class Failing:
    """Which functions report failure through a negative result?"""

    def __init__(self, P):
        self.P, self.memo = P, {}

    def can(self, g):
        k = (g.unit, g.name)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        t = g.T[g.ret]
        if t[0] in STATUS:
            self.memo[k] = True
            return True
        if t[0] != "int" and t[1] != "e":
            return False
        D, V = defs_of(g), {}
        for b in g.blocks.values():
            for e in b.els:
                if e[0] == "asg" and e[2][0] == "v":
                    V.setdefault(e[2][1], []).append(e[3])
                elif e[0] == "decl" and e[2]:
                    V.setdefault(e[1], []).append(e[2])
        for b in g.blocks.values():
            for e in b.els:
                if e[0] == "ret" and e[1] and self.negative(g, e[1], D, V):
                    self.memo[k] = True
        return self.memo[k]

    def negative(self, g, x, D, V):
        todo, seen = [x], set()
        while todo:
            x = uncast(todo.pop())
            if not x:
                continue
            if x[0] == "u" and x[1] == "-" and x[2][0] == "i" or \
                    x[0] == "i" and isinstance(x[1], int) and x[1] < 0:
                return True
            if x[0] not in ("t", "v") or (x[0], x[1]) in seen:
                continue
            seen.add((x[0], x[1]))
            if x[0] == "v":
                todo += V.get(x[1], [])
                continue
            d = D.get(x[1])
            if d and d[0] == "call" and isinstance(d[2], str):
                if any(self.can(h) for h in self.P.targets(g, d[2])):
                    return True
            elif d and d[0] in ("asg", "phi"):
                todo.append(d[3 if d[0] == "asg" else 2])
        return False


def uses(f):
    """temporaries and variables that occur anywhere but where they are set"""
    r = set()
    for b in f.blocks.values():
        for e in b.els:
            xs = e[1:]
            if e[0] == "asg" and e[2][0] in ("v", "t"):
                xs = [e[3]]
            elif e[0] == "decl":
                xs = [e[2]]
            elif e[0] == "call":
                xs = [e[3]] + ([e[2]] if not isinstance(e[2], str) else [])
            elif e[0] == "phi":
                xs = [e[2]]
            elif e[0] == "use":
                xs = []
            for x in walk(xs):
                if x[0] in ("t", "v") and len(x) > 1:
                    r.add((x[0], x[1]))
        if b.term and b.term[1]:
            for x in walk(b.term[1]):
                if x[0] in ("t", "v") and len(x) > 1:
                    r.add((x[0], x[1]))
    return r


def holders(f, t):
    """the temporary and the variables the result of a call ends up in"""
    r = {("t", t)}
    while True:
        n = len(r)
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "asg" and e[2][0] == "v":
                    to, x = ("v", e[2][1]), e[3]
                elif e[0] == "asg" and e[2][0] == "t":
                    to, x = ("t", e[2][1]), e[3]
                elif e[0] == "decl" and e[2]:
                    to, x = ("v", e[1]), e[2]
                elif e[0] == "phi":
                    to, x = ("t", e[1]), e[2]
                else:
                    continue
                x = uncast(x)
                if x and x[0] in "tv" and (x[0], x[1]) in r:
                    r.add(to)
        if len(r) == n:
            return r


def tested(f, H, D):
    """Is one of the holders tested for being negative, or passed on?"""
    for b in f.blocks.values():
        for e in b.els:
            if e[0] == "ret":
                xs = [e[1]]
            elif e[0] == "call":
                xs = e[3]
            elif e[0] == "asg" and e[2][0] not in ("v", "t"):
                xs = [e[3]]
            else:
                continue
            for x in walk(xs):
                if x[0] in "tv" and len(x) > 1 and (x[0], x[1]) in H:
                    return True
        if b.term and b.term[1]:
            if b.term[0] == "switch" and any(
                    x[0] in "tv" and len(x) > 1 and (x[0], x[1]) in H
                    for x in walk(b.term[1])):
                return True
            for truth in (True, False):
                for op, x, y in facts(f, b.term[1], truth, D):
                    x = uncast(x)
                    if x and x[0] in "tv" and (x[0], x[1]) in H and \
                            (op in ("<", "<=", ">", ">=") or
                             uncast(y)[0] == "i" and uncast(y)[1] < 0):
                        return True
    return False


def unseen(out):
    P = program()
    F = Failing(P)
    ok = load_rules("unseen.json")
    for f in P.fns:
        if not settled(P, f):
            continue
        void = f.T[f.ret][0] == "void"
        U = D = None
        for b in f.blocks.values():
            for e in b.els:
                if e[0] != "call" or not isinstance(e[2], str):
                    continue
                gs = P.targets(f, e[2])
                if not gs or not F.can(gs[0]):
                    continue
                out.count("calls that may report a failure")
                if U is None:
                    U, D = uses(f), defs_of(f)
                H = holders(f, e[1])
                if not H & U:
                    if any(fnmatch.fnmatchcase(e[2], p)
                           for p in ok["callees"]) or \
                            e[2] in ok["functions"].get(f.name, {}):
                        out.count("results not needed, as listed")
                        continue
                    out.v("failure-not-looked-at", f.name, loc(f, e[4]),
                          "%s may report a failure, but its result is not "
                          "used" % e[2])
                elif void:
                    out.count("calls in functions that return nothing")
                    if not tested(f, H, D):
                        out.v("failure-not-looked-at", f.name, loc(f, e[4]),
                              "the result of %s is never tested for being a "
                              "failure" % e[2])
    out.floor("calls that may report a failure", 6000)
    out.floor("calls in functions that return nothing", 30)


def outside(x):
    """Is x part of something the function was handed a pointer to?"""
    x = uncast(x)
    while x and x[0] == "m":
        if x[4]:
            return True
        x = uncast(x[1])
    return False


def records_failure(f, e, D):
    """Does e tell the caller of a function without a result that it failed:
    by setting an error flag, or by emptying a field?"""
    if e[0] != "asg" or not outside(e[2]):
        return False
    m, x = uncast(e[2]), uncast(e[3])
    if m[2] == "error":
        return x[0] == "i" and x[1] != 0
    if x[0] == "n":
        return True
    if x[0] == "t" and D.get(x[1]):
        d = D[x[1]]
        return d[0] == "call" and isinstance(d[2], str) and \
            d[2].endswith("_free")
    return False


def unrecorded(P, L, f):
    """None if f never records a failure; otherwise the lines of the tests for
    a failure after which it may return without having recorded one"""
    D = defs_of(f)
    ok = {b.id for b in f.blocks.values()
          if any(records_failure(f, e, D) for e in b.els)}
    if not ok:
        return None
    bad, n = set(), 0
    for b in f.blocks.values():
        if not b.term or not b.term[1] or len(b.succ) != 2 or b.id in ok:
            continue
        for i in (0, 1):
            t = b.succ[i]
            if t not in f.blocks or not L.failtest(f, b, i, D):
                continue
            n += 1
            if t not in ok and f.exit in L.reach(f, t, ok):
                bad.add(b.term[2] or f.line)
    return n, bad


def recorded(out):
    """rules/recorded.json: functions without a result in which every failure
    that is tested for is recorded in an object the caller looks at"""
    from rules_loops import Loops
    P = program()
    L = Loops(P)
    for name in load_rules("recorded.json")["functions"]:
        for f in P.by_name.get(name, ()):
            if f.T[f.ret][0] != "void" or not settled(P, f):
                continue
            out.count("functions that record failures")
            r = unrecorded(P, L, f)
            if r is None:
                out.v("failure-not-recorded", f.name, loc(f, f.line),
                      "no longer records any failure")
                continue
            out.count("tests for a failure", r[0])
            for line in sorted(r[1]):
                out.v("failure-not-recorded", f.name, loc(f, line),
                      "a failure found here is not recorded for the caller "
                      "on every path")
    out.floor("functions that record failures", 12)


def derive_recorded():
    from rules_loops import Loops
    P = program()
    L = Loops(P)
    r = []
    for f in P.fns:
        if f.T[f.ret][0] != "void" or "free" in f.name or "clear" in f.name:
            continue
        x = unrecorded(P, L, f)
        if x and x[0] and not x[1]:
            r.append(f.name)
    return {"functions": sorted(set(r))}


ALLOC = {"isl_malloc_or_die", "isl_calloc_or_die", "isl_realloc_or_die"}


def place(x, D):
    """The variable, temporary or member that x stands for"""
    x = uncast(x)
    n = 0
    while x[0] == "t" and D.get(x[1]) and D[x[1]][0] == "asg" and n < 5:
        d = D[x[1]]
        x = uncast(d[3] if uncast(d[3])[0] == "t" else d[2])
        n += 1
    if x[0] in ("t", "v"):
        return (x[0], x[1])
    if x[0] == "m":
        return ("m", x[2], x[3])
    if x[0] in ("x", "*"):
        return (x[0],) + (place(x[1], D) or ())
    return (str(x[0]),)


def null_tests(f, D):
    """The places that are compared to NULL in f, or returned by it, or that
    are part of a value that is chosen by such a comparison"""
    r = set()
    for b in f.blocks.values():
        if b.term and b.term[1] and len(b.succ) == 2:
            for i in (0, 1):
                for op, x, y in facts(f, b.term[1], i == 0, D):
                    if op in ("==", "!=") and (y[0] == "n" or
                                               y == ["i", 0]):
                        r.add(place(x, D))
        for e in b.els:
            if e[0] == "ret" and e[1]:
                r.add(place(e[1], D))
            elif e[0] == "phi":
                for w in walk(e):
                    if w[0] in ("t", "v", "m") and len(w) > 1:
                        r.add(place(w, D))
    return r


class NullTests:
    def __init__(self, P):
        self.P, self.memo, self.D = P, {}, {}

    def of(self, f):
        k = (f.unit, f.name)
        if k not in self.memo:
            self.D[k] = defs_of(f)
            self.memo[k] = null_tests(f, self.D[k])
        return self.memo[k]

    def handed(self, f, places, line):
        """Is one of the places handed to a function that compares the
        argument with NULL, or is the object it is a member of handed to a
        function that compares the member with NULL?"""
        D = self.D[(f.unit, f.name)]
        fields = {p for p in places if p[0] == "m"}
        for name, args, _, _, _, _ in self.P.calls(f):
            if not isinstance(name, str):
                continue
            gs = self.P.targets(f, name)
            for i, a in enumerate(args):
                if place(a, D) in places:
                    if any(i < len(g.ps) and ("v", i) in self.of(g)
                           for g in gs):
                        return True
            if fields and any(fields & self.of(g) for g in gs):
                return True
        return False


def moved(f, D):
    """Which places of f are assigned what other places hold"""
    r = []
    for b in f.blocks.values():
        for e in b.els:
            if e[0] == "decl" and e[2]:
                r.append((("v", e[1]), place(e[2], D)))
            elif e[0] == "asg":
                y = uncast(e[3])
                x = (y[0], y[1]) if y[0] in ("t", "v") else place(y, D)
                r.append((place(e[2], D), x))
                if e[1] is not None:
                    r.append((("t", e[1]), x))
    return r


def held(t, moves):
    """All places of f that may come to hold temporary t"""
    ks, n = {("t", t)}, 0
    while n != len(ks):
        n = len(ks)
        for d, x in moves:
            if x in ks:
                ks.add(d)
    return ks


def inside(x):
    """Is x part of an object, rather than a variable of the function?"""
    x = uncast(x)
    return x[0] == "x" or x[0] == "m" and (x[4] or inside(x[1]))


def allocated(out):
    """The result of every allocation is compared to NULL or returned;
    so is every new object that is stored inside another one"""
    P = program()
    N = NullTests(P)
    R = load_rules("untested.json")["stored"]
    for f in P.fns:
        new, stored = {}, set()
        for name, args, line, t, callee, b in P.calls(f):
            if name in ALLOC:
                new[t] = (name, line)
            elif isinstance(name, str) and any(
                    "give" in g.ra and not g.static
                    for g in P.targets(f, name)):
                new[t] = (name, line)
        if not new:
            continue
        tested = N.of(f)
        D = N.D[(f.unit, f.name)]
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "asg" and inside(e[2]):
                    y = uncast(e[3])
                    if y[0] == "t":
                        stored.add(y[1])
        moves = None
        for t, (name, line) in sorted(new.items()):
            raw = name in ALLOC
            if not raw and t not in stored:
                continue
            if moves is None:
                moves = moved(f, D)
            ks = held(t, moves)
            if not raw and not any(k[0] == "m" for k in ks):
                continue
            out.count("allocations" if raw else "objects stored in others")
            if ks & tested or N.handed(f, ks, line):
                continue
            if not settled(P, f):
                continue
            fields = sorted(k[1] for k in ks if k[0] == "m")
            if not raw and all(k in R.get(f.name, {}) for k in fields):
                out.count("objects stored untested, with a reason")
                continue
            out.v("untested-allocation", f.name, loc(f, line),
                  "the result of this allocation is never compared to NULL"
                  if raw else
                  "the result of %s is stored in %s, and never compared to "
                  "NULL" % (name, ", ".join(fields)))
    out.floor("allocations", 300)
    out.floor("objects stored in others", 600)
