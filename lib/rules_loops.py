"""C19: loops over all elements that are left early, or that skip elements.

Most loops over the elements of an array are only left before the end if the
function fails, and look at the element in every iteration.  How many loops of
a function over an array do not (because they look for an element, say) is
listed in rules/complete.json, which was derived from the code.  One more loop
that is left early while the function goes on to succeed, or that has an
iteration which does not look at the element, leaves out elements."""
from prog import program, walk, defs_of, facts
from rules_struct import settled, uncast, loc, load_rules
from rules_index import Cover, rec_key


def steps(f):
    """variable -> steps, and the blocks that give it a value otherwise"""
    st, init = {}, {}
    for b in f.blocks.values():
        for e in b.els:
            if e[0] == "inc" and e[3][0] == "v":
                st.setdefault(e[3][1], set()).add(
                    (b.id, 1 if "+" in e[2] else -1))
            elif e[0] == "casg" and e[3][0] == "v":
                st.setdefault(e[3][1], set()).add(
                    (b.id, -1 if e[2] in ("-", "-=") else 1))
            elif e[0] == "asg" and e[2][0] == "v":
                x = uncast(e[3])
                if x[0] == "b" and x[1] in "+-" and uncast(x[2]) == e[2]:
                    st.setdefault(e[2][1], set()).add(
                        (b.id, 1 if x[1] == "+" else -1))
                else:
                    init.setdefault(e[2][1], set()).add(b.id)
            elif e[0] == "decl":
                init.setdefault(e[1], set()).add(b.id)
    return st, init


class Loops:
    def __init__(self, P):
        self.P = P
        self.K = Cover(P)

    def reach(self, f, start, stop, preds=None):
        seen, todo = {start}, [start]
        while todo:
            n = todo.pop()
            if n in stop and n != start:
                continue
            for t in (preds[n] if preds else f.blocks[n].succ):
                if t is not None and t in f.blocks and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def loops(self, f, vs):
        """(variable, testing block, first block of the body, all blocks)"""
        st, init = steps(f)
        D = defs_of(f)
        preds = {n: [] for n in f.blocks}
        for n, b in f.blocks.items():
            for t in b.succ:
                if t in preds:
                    preds[t].append(n)
        for b in f.blocks.values():
            if not b.term or not b.term[1] or len(b.succ) != 2 or \
                    b.term[0] == "switch":
                continue
            for i in (0, 1):
                vv = set()
                for op, x, y in facts(f, b.term[1], i == 0, D):
                    x = uncast(x)
                    if x[0] == "t" and D.get(x[1]) and D[x[1]][0] == "asg":
                        x = uncast(D[x[1]][3])
                    if x[0] != "v" or x[1] not in vs or x[1] not in st:
                        continue
                    vv.add((x[1], op))
                t = b.succ[i]
                if t is None or t not in f.blocks:
                    continue
                done = set()
                for v, op in vv:
                    block = init.get(v, set()) | {b.id}
                    body = self.reach(f, t, block)
                    back = self.reach(f, b.id, init.get(v, set()), preds)
                    body = (body & back) - init.get(v, set()) | {b.id}
                    if any(b.id in f.blocks[n].succ for n in body) and \
                            t in body and v not in done:
                        ds = {d for n, d in st[v] if n in body}
                        if op in ("<", "<=", "!=") and ds == {1} or \
                                op in (">", ">=", "!=") and ds == {-1}:
                            done.add(v)
                            yield v, b.id, t, body

    def once(self, f, A):
        """loops over elements that are never repeated: (array, line)"""
        D = defs_of(f)
        for b in f.blocks.values():
            if not b.term or b.term[0] not in ("for", "while") or \
                    len(b.succ) != 2 or b.succ[0] not in f.blocks:
                continue
            body = self.reach(f, b.succ[0], {b.id})
            if b.id in body:
                continue
            for y in self.inside(f, b.term[1], D):
                for name, bs in A.get(y, {}).items():
                    if bs & body:
                        yield name, b.term[2] or f.line

    def fails(self, f, n, came, D, depth=0):
        """Does the function fail on every path from n on?"""
        todo, seen = [(n, came, ())], set()
        k = 0
        while todo:
            n, came, env = todo.pop()
            if (n, env) in seen:
                continue
            seen.add((n, env))
            k += 1
            if k > 400:
                return False
            b = f.blocks[n]
            if b.noret:
                continue
            env = dict(env)
            done = False
            for e in b.els:
                if e[0] == "call" and e[2] == "isl_handle_error":
                    done = True
                    break
                if e[0] == "asg" and e[2][0] in "tv":
                    env[tuple(e[2][:2])] = self.value(f, e[3], env)
                elif e[0] == "decl":
                    env[("v", e[1])] = self.value(f, e[2], env) if e[2] \
                        else None
                elif e[0] == "call":
                    env[("t", e[1])] = self.null(f, e[2])
                elif e[0] == "phi":
                    env[("t", e[1])] = None
                elif e[0] == "ret":
                    if not self.value(f, e[1], env):
                        return False
                    done = True
                    break
            if done:
                continue
            if n == f.exit:
                return False
            env = tuple(sorted((k, v) for k, v in env.items() if v))
            for i, t in enumerate(b.succ):
                if t is None or t not in f.blocks:
                    continue
                if self.failtest(f, b, i, D):
                    continue
                if b.term and b.term[1] and len(b.succ) == 2 and \
                        self.contradicts(f, b, i, dict(env), D):
                    continue
                todo.append((t, n, env))
        return True

    def contradicts(self, f, b, i, env, D):
        for op, x, y in facts(f, b.term[1], i == 0, D):
            x, y = uncast(x), uncast(y)
            if x and x[0] in "tv" and env.get((x[0], x[1])) == "f":
                if op == ">=" and y[0] == "i" and y[1] == 0:
                    return True
                if op == "!=" and (y[0] == "n" or y == ["i", 0]):
                    return True
        return False

    def null(self, f, name):
        if not isinstance(name, str):
            return None
        if name.endswith("_free"):
            return "f"
        return None

    def value(self, f, x, env):
        """'f' for a failure"""
        x = uncast(x) if x else None
        if not x:
            return None
        if x[0] == "n" or x[0] == "i" and isinstance(x[1], int) and \
                x[1] < 0 or x[0] == "u" and x[1] == "-" and x[2][0] == "i":
            return "f"
        if x[0] == "i" and x[1] == 0 and \
                f.T[f.ret][1] == "p":
            return "f"
        if x[0] in "tv":
            return env.get((x[0], x[1]))
        return None

    def failtest(self, f, b, i, D):
        """Is the edge taken if something failed?"""
        if not b.term or not b.term[1] or len(b.succ) != 2 or \
                b.term[0] == "switch":
            return False
        for op, x, y in facts(f, b.term[1], i == 0, D):
            x, y = uncast(x), uncast(y)
            if not x or x[0] not in "tv":
                continue
            if op == "<" and y[0] == "i" and y[1] == 0 or \
                    op == "==" and y[0] == "i" and y[1] < 0:
                return True
            if op == "==" and (y[0] == "n" or y == ["i", 0] and
                               self.pointer(f, x, D)):
                return True
        return False

    def pointer(self, f, x, D):
        t = None
        if x[0] == "v":
            t = f.vtype[x[1]]
        elif D.get(x[1]):
            d = D[x[1]]
            t = d[5] if d[0] in ("call", "asg") and len(d) > 5 else None
        return t is not None and t >= 0 and f.T[t][1] == "p"

    def accesses(self, f):
        """variable -> array -> blocks in which an element at a position that
        depends on the variable is accessed"""
        r = {}
        for b, base, idx, line in self.K.accesses(f):
            if idx[0] == "v":
                r.setdefault(idx[1], {}).setdefault(
                    "%s.%s" % (rec_key(self.P, base[3]), base[2]),
                    set()).add(b)
        D = defs_of(f)
        for b in f.blocks.values():
            for e in b.els + [b.term or []]:
                for x in walk(e):
                    if x[0] == "x":
                        base, idx = uncast(x[1]), uncast(x[2])
                    elif x[0] == "b" and x[1] == "+" and x[4] is not None \
                            and x[4] >= 0 and f.T[x[4]][1] == "p":
                        base, idx = uncast(x[2]), uncast(x[3])
                    else:
                        continue
                    if not base or idx is None:
                        continue
                    if base[0] == "m":
                        if idx[0] == "v":
                            continue
                        name = "%s.%s" % (rec_key(self.P, base[3]), base[2])
                    elif base[0] in "vt":
                        t = f.vtype[base[1]] if base[0] == "v" else None
                        name = "*" + (f.T[t][0] if t is not None else "")
                    elif base[0] == "x":
                        name = "[]"
                    else:
                        continue
                    for y in self.inside(f, idx, D):
                        r.setdefault(y, {}).setdefault(name, set()).add(b.id)
        return r

    def inside(self, f, x, D, depth=0):
        for y in walk(x):
            if y[0] == "v" and len(y) > 1:
                yield y[1]
            elif y[0] == "t" and depth < 3 and D.get(y[1]) and \
                    D[y[1]][0] == "asg":
                yield from self.inside(f, D[y[1]][3], D, depth + 1)

    def analyse(self, f):
        """(array, early exits that are no failures, iterations that do not
        look at the element) per loop"""
        A = self.accesses(f)
        vs = set(A)
        if not vs:
            return
        D = defs_of(f)
        for v, test, first, body in self.loops(f, vs):
            names = {n: bs & body for n, bs in A[v].items() if bs & body}
            if not names:
                continue
            early = None
            for n in body:
                if n == test or f.blocks[n].noret:
                    continue
                b = f.blocks[n]
                for i, t in enumerate(b.succ):
                    if t is None or t not in f.blocks or t in body:
                        continue
                    if self.failtest(f, b, i, D) or \
                            any(e[0] == "call" and e[2] == "isl_handle_error"
                                for e in b.els) or \
                            self.fails(f, t, n, D):
                        continue
                    early = (b.term[2] if b.term and len(b.term) > 2 and
                             isinstance(b.term[2], int) else f.line)
            for name, bs in names.items():
                skip = None
                if first not in bs:
                    r = {first}
                    todo = [first]
                    while todo:
                        n = todo.pop()
                        for i, t in enumerate(f.blocks[n].succ):
                            if t == test:
                                skip = True
                            if t is None or t in r or t not in body or \
                                    t in bs or t == test:
                                continue
                            r.add(t)
                            todo.append(t)
                if test in bs:
                    skip = None
                yield name, early, skip, f.blocks[test].term[2] or f.line


def complete(out):
    P = program()
    L = Loops(P)
    listed = load_rules("complete.json")
    for f in P.fns:
        if not settled(P, f) or f.name not in listed:
            continue
        n = {}
        for name, line in sorted(set(L.once(f, L.accesses(f)))):
            if name in listed[f.name]:
                out.v("loop-left-early", f.name, loc(f, line),
                      "a loop over %s is never repeated" % name)
        for name, early, skip, line in L.analyse(f):
            w = listed[f.name].get(name)
            if w is None:
                continue
            out.count("loops over elements")
            c = n.setdefault(name, [0, 0])
            c[0] += bool(early)
            c[1] += bool(skip)
            if early and c[0] == w[0] + 1:
                out.v("loop-left-early", f.name, loc(f, early),
                      "a loop over %s is left before all elements were "
                      "handled, although the function does not fail" % name)
            if skip and c[1] == w[1] + 1:
                out.v("element-skipped", f.name, loc(f, line),
                      "a loop over %s has an iteration that does not look at "
                      "the element" % name)
    out.floor("loops over elements", 1000)


def derive():
    P = program()
    L = Loops(P)
    r = {}
    for f in P.fns:
        for name, early, skip, line in L.analyse(f):
            w = r.setdefault(f.name, {}).setdefault(name, [0, 0])
            w[0] += bool(early)
            w[1] += bool(skip)
    return r
