"""Merge new static helper functions into their callers.

A static function that did not exist when the rules were reviewed
(rules/functions.json) and that is called directly is analysed as part of
each of its callers, as if its body were written there.  Moving a part of
a function to a helper then changes nothing in what is analysed."""
import json, os

MAX_BLOCKS = 900
MAX_HELPER = 400


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            st.extend(z for z in y if isinstance(z, list))


def callees(o):
    for b in o["bl"]:
        for e in b[1]:
            if e[0] == "call" and isinstance(e[2], str):
                yield e[2]


def modified(o):
    """Variables that are assigned to or whose address is taken."""
    r = set()
    for b in o["bl"]:
        for n in nodes([b[1], b[2]]):
            if n[0] == "asg":
                x = n[2]
            elif n[0] in ("casg", "inc"):
                x = n[3]
            elif n[0] == "&":
                x = n[1]
            else:
                continue
            while isinstance(x, list) and x and (
                    x[0] in ("c",) or x[0] == "m" and not x[4] or
                    x[0] == "x"):
                x = x[2] if x[0] == "c" else x[1]
            if isinstance(x, list) and x and x[0] == "v":
                r.add(x[1])
    return r


class Subst:
    def __init__(self, env, toff, lab=None):
        self.env, self.toff = env, toff

    def ex(self, x):
        if not isinstance(x, list) or not x:
            return x
        h = x[0]
        if h == "v" and len(x) == 2:
            return self.env[x[1]]
        if h == "t" and len(x) == 2:
            return ["t", x[1] + self.toff]
        if h in ("s", "i", "g", "f"):
            return x
        y = [self.ex(z) for z in x]
        if h == "*" and y[1] and y[1][0] == "&":
            return y[1][1]
        if h == "m" and y[4] and y[1] and y[1][0] == "&":
            y[1], y[4] = y[1][1], 0
        return y

    def stmt(self, e):
        h = e[0]
        y = [h] + [self.ex(z) if isinstance(z, list) else z for z in e[1:]]
        if h in ("call", "asg", "casg", "inc", "phi"):
            y[1] = e[1] + self.toff
        elif h == "decl":
            y[1] = self.env[e[1]][1]
        return y


def repl(x, t, e):
    if not isinstance(x, list) or not x:
        return x
    if x[0] == "t" and len(x) == 2 and x[1] == t:
        return e
    if x[0] in ("s", "i", "g", "f"):
        return x
    y = [repl(z, t, e) for z in x]
    if x[0] == "*" and y[1] and y[1][0] == "&":
        return y[1][1]
    return y


def uses(x, t):
    return any(n[0] == "t" and len(n) == 2 and n[1] == t for n in nodes(x))


def const(x, env):
    """Value of a constant expression, or None."""
    if not isinstance(x, list) or not x:
        return None
    h = x[0]
    if h == "i" and isinstance(x[1], int):
        return x[1]
    if h == "n":
        return 0
    if h == "c":
        return const(x[2], env)
    if h in ("v", "t") and len(x) == 2:
        return env.get((h, x[1]))
    if h == "u":
        v = const(x[2], env)
        if v is None:
            return None
        return {"!": int(not v), "-": -v, "+": v}.get(x[1])
    if h == "b":
        l, r = const(x[2], env), const(x[3], env)
        if l is None or r is None:
            return None
        f = {"<": lambda: l < r, ">": lambda: l > r, "<=": lambda: l <= r,
             ">=": lambda: l >= r, "==": lambda: l == r,
             "!=": lambda: l != r}.get(x[1])
        return int(f()) if f else None
    return None


def simple(els):
    return len(els) <= 6 and all(
        e[0] in ("asg", "decl", "use", "ret", "phi", "casg", "inc")
        for e in els)


def inline_at(F, bi, k, H):
    """Replace call k of block F["bl"][bi] by the body of H."""
    b = F["bl"][bi]
    bid, els, term, succ, label, join, noret = b
    call = els[k]
    t, args, line = call[1], call[3], call[4]
    rest = els[k + 1:]
    nid = max(x[0] for x in F["bl"]) + 1
    cont = nid
    bmap = {}
    for i, hb in enumerate(H["bl"]):
        bmap[hb[0]] = nid + 1 + i
    nid += 1 + len(H["bl"])
    # variables
    nv = max([len(F["ps"]) - 1] + [l[0] for l in F["ls"]]) + 1
    mod = modified(H)
    env, pre = {}, []
    for i, p in enumerate(H["ps"]):
        a = args[i]
        other = [x for j, x in enumerate(args) if j != i]
        direct = i not in mod and (
            a[0] in ("n", "i", "s", "g", "f") or
            a[0] == "v" and not any(n[0] == "&" and n[1] == a
                                    for n in nodes(other)) or
            a[0] == "&" and a[1][0] == "v" and
            not any(n == a[1] for n in nodes(other)))
        if direct:
            env[i] = a
            continue
        F["ls"].append([nv, p[0], p[1], line])
        F.setdefault("inlined", []).append(nv)
        env[i] = ["v", nv]
        pre.append(["decl", nv, a, line])
        nv += 1
    for l in H["ls"]:
        F["ls"].append([nv, l[1], l[2], l[3]])
        F.setdefault("inlined", []).append(nv)
        env[l[0]] = ["v", nv]
        nv += 1
    S = Subst(env, F["nt"])
    F["nt"] += H["nt"]
    # where is the result used?
    elsewhere = any(uses([x[1], x[2]], t) for x in F["bl"] if x is not b) or \
        uses([els[:k]], t)
    sink = None
    if rest and rest[0][0] == "asg" and rest[0][2][0] == "v" and \
            rest[0][3] == ["t", t] and not uses([rest[1:], term], t):
        sink = rest[0]
    elif rest and rest[0][0] == "decl" and rest[0][2] == ["t", t] and \
            not uses([rest[1:], term], t):
        sink = rest[0]
    dup = not elsewhere and simple(rest) and (
        term is not None or any(e[0] == "ret" for e in rest))
    keep = elsewhere or uses([rest, term], t)
    if not dup and sink and not elsewhere:
        rest = rest[1:]
    else:
        sink = None
    new = [[bid, els[:k] + pre, None, [bmap[H["entry"]]], label, join, 0],
           [cont, rest, term, succ, None, None, noret]]
    for hb in H["bl"]:
        if hb[0] == H["exit"]:
            # reached only when the end is reached without a return
            new.append([bmap[hb[0]], [], None, [cont], None, None, 0])
            continue
        hels = [S.stmt(e) for e in hb[1] if e[0] != "ret"]
        hterm = hb[2] and [hb[2][0], S.ex(hb[2][1]), hb[2][2]]
        hsucc = [bmap.get(s, s) if s is not None else s for s in hb[3]]
        if hb[6]:
            hsucc = [F["exit"] if s == bmap[H["exit"]] else s for s in hsucc]
        nb = [bmap[hb[0]], hels, hterm, hsucc, hb[4],
              hb[5] + S.toff if hb[5] is not None else None, hb[6]]
        new.append(nb)
        ret = [e for e in hb[1] if e[0] == "ret"]
        if not ret:
            continue
        e = S.ex(ret[-1][1]) if ret[-1][1] else None
        if e is None or not keep:
            if e is not None and not keep:
                hels.append(["use", e, ret[-1][2]])
            nb[3] = [cont]
            continue
        if dup:
            cp = repl(rest, t, e)
            ct = repl(term, t, e)
            cs = list(succ)
            cenv = {}
            for x in cp:
                if x[0] == "asg":
                    cenv[("t", x[1])] = v = const(x[3], cenv)
                    if x[2][0] == "v":
                        cenv[("v", x[2][1])] = v
                elif x[0] == "decl":
                    cenv[("v", x[1])] = const(x[2], cenv) if x[2] else None
                elif x[0] in ("casg", "inc") and x[3][0] == "v":
                    cenv[("v", x[3][1])] = None
            if ct and len(cs) == 2:
                v = const(ct[1], cenv)
                if v is not None:
                    cs = [cs[0] if v else cs[1]]
                    ct = None
            nb[3] = [nid]
            new.append([nid, cp, ct, cs, None, None, noret])
            nid += 1
        elif sink:
            s = list(sink)
            s[3 if s[0] == "asg" else 2] = e
            hels.append(s)
            nb[3] = [cont]
        else:
            hels.append(["phi", t, e, 0])
            nb[3] = [cont]
    F["bl"][bi:bi + 1] = new


def prune(F):
    """Drop the blocks that cannot be reached."""
    bs = {b[0]: b for b in F["bl"]}
    seen, work = {F["exit"]}, [F["entry"]]
    while work:
        x = work.pop()
        if x in seen or x not in bs:
            continue
        seen.add(x)
        work += [s for s in bs[x][3] if s is not None]
    F["bl"] = [b for b in F["bl"] if b[0] in seen]


def inline_unit(path, settled):
    """Rewrite an IR file; returns the names of the functions merged."""
    rows = [json.loads(l) for l in open(path)]
    fns = [o for o in rows if o.get("k") == "fn"]
    count = {}
    for o in fns:
        count[o["name"]] = count.get(o["name"], 0) + 1
    va = {o["name"] for o in rows if o.get("k") == "fd" and o["va"]}
    new = {o["name"]: o for o in fns
           if o["static"] and o["name"] not in settled and
           count[o["name"]] == 1 and o["name"] not in va and
           len(o["bl"]) <= MAX_HELPER}
    # not the recursive ones
    sub = {n: {c for c in callees(o) if c in new} for n, o in new.items()}
    while True:
        reach = {n: set(s) for n, s in sub.items()}
        ch = True
        while ch:
            ch = False
            for n in reach:
                x = set().union(reach[n], *[reach[m] for m in reach[n]])
                if x != reach[n]:
                    reach[n], ch = x, True
        bad = [n for n in reach if n in reach[n]]
        if not bad:
            break
        for n in bad:
            del new[n]
        sub = {n: {c for c in callees(o) if c in new} for n, o in new.items()}
    if not new:
        return []
    order = sorted(new, key=lambda n: len(reach[n]))
    done = set()
    todo = [new[n] for n in order] + [o for o in fns if o["name"] not in new]
    for F in todo:
        ch = False
        i = 0
        while i < len(F["bl"]):
            b = F["bl"][i]
            for k, e in enumerate(b[1]):
                if e[0] == "call" and isinstance(e[2], str) and \
                        e[2] in new and e[2] != F["name"] and \
                        len(e[3]) == len(new[e[2]]["ps"]) and \
                        len(F["bl"]) + len(new[e[2]]["bl"]) <= MAX_BLOCKS:
                    inline_at(F, i, k, json.loads(json.dumps(new[e[2]])))
                    done.add(e[2])
                    ch = True
                    break
            i += 1
        if ch:
            prune(F)
    refs = set()
    for o in rows:
        if o.get("k") == "fn" and o["name"] not in new or \
                o.get("k") == "gv":
            refs |= refd(o)
    # helpers that are still referred to stay
    work = [n for n in new if n in refs]
    stay = set()
    while work:
        n = work.pop()
        if n in stay:
            continue
        stay.add(n)
        work += [m for m in refd(new[n]) if m in new]
    drop = done - stay
    with open(path + ".tmp", "w") as f:
        for o in rows:
            if o.get("k") == "fn" and o["name"] in drop:
                continue
            f.write(json.dumps(o, separators=(",", ":"),
                               ensure_ascii=False) + "\n")
    os.rename(path + ".tmp", path)
    return sorted(done)


def refd(o):
    r = set()
    for n in nodes(o["bl"] if o.get("k") == "fn" else [o.get("init")]):
        if n[0] == "f":
            r.add(n[1])
        elif n[0] == "call" and isinstance(n[2], str):
            r.add(n[2])
    return r
