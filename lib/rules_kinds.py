"""Tagged unions: a member of the union is only accessed on paths on which
the tag is known to select that member, in this function or in all callers."""
import json, os
from prog import *

AST_EXPR = {"v": ["isl_ast_expr_int"], "id": ["isl_ast_expr_id"],
            "op": ["isl_ast_expr_op"]}
AST_NODE = {"b": ["isl_ast_node_block"], "i": ["isl_ast_node_if"],
            "f": ["isl_ast_node_for"], "e": ["isl_ast_node_user"],
            "m": ["isl_ast_node_mark"]}
TREE = {"band": ["isl_schedule_node_band"],
        "context": ["isl_schedule_node_context"],
        "domain": ["isl_schedule_node_domain"],
        "": ["isl_schedule_node_expansion"],
        "contraction": ["isl_schedule_node_expansion"],
        "expansion": ["isl_schedule_node_expansion"],
        "extension": ["isl_schedule_node_extension"],
        "filter": ["isl_schedule_node_filter"],
        "guard": ["isl_schedule_node_guard"],
        "mark": ["isl_schedule_node_mark"]}
TOKEN = {"v": ["ISL_TOKEN_VALUE"], "map": ["ISL_TOKEN_MAP"],
         "pwaff": ["ISL_TOKEN_AFF"],
         # every other token has a string, or none at all
         "s": ["!ISL_TOKEN_VALUE", "!ISL_TOKEN_MAP", "!ISL_TOKEN_AFF"]}
UNDO = {"var_index": ["isl_tab_undo_" + x for x in (
            "nonneg", "redundant", "freeze", "zero", "allocate", "relax",
            "unrestrict", "bmap_div")],
        "col_var": ["isl_tab_undo_saved_basis"],
        "n": ["isl_tab_undo_saved_samples"],
        "callback": ["isl_tab_undo_callback"]}
# record -> (tag field, enumeration of the tag, union field, members)
TAGGED = {
    "isl_ast_expr": ("type", "isl_ast_expr_type", "u", AST_EXPR),
    "isl_ast_node": ("type", "isl_ast_node_type", "u", AST_NODE),
    "isl_schedule_tree": ("type", "isl_schedule_node_type", "", TREE),
    "isl_token": ("type", "isl_token_type", "u", TOKEN),
    "isl_tab_undo": ("type", "isl_tab_undo_type", "u", UNDO),
}
# record -> (flag that is only set on objects with a member, this member)
FLAGS = {"isl_token": ("is_keyword", "s")}
# records through which tagged objects are reached
VIA = {"isl_schedule_node"}
OFF = 4
WID = 420
ANY = (1 << WID) - 1


def bit(v):
    """a set of tags is a bit mask"""
    return 1 << (v + OFF) if -OFF <= v < WID - OFF else 0


def rng(lo, hi):
    lo, hi = max(lo, -OFF), min(hi, WID - OFF - 1)
    return ((1 << (hi - lo + 1)) - 1) << (lo + OFF) if hi >= lo else 0


def every(k):
    r = 0
    for a in k.values():
        r |= a
    return r


def deep(i):
    n = 0
    while i and i[0] == "f":
        n += 1
        i = i[1]
    return n > 5


def strip(x):
    while x and x[0] == "c":
        x = x[2]
    return x


class St:
    __slots__ = ("env", "fl", "kd", "cl", "lk")

    def __init__(self, o=None):
        self.env = dict(o.env) if o else {}
        self.fl = dict(o.fl) if o else {}
        self.kd = dict(o.kd) if o else {}
        self.cl = dict(o.cl) if o else {}
        # objects with the same tag as another one
        self.lk = dict(o.lk) if o else {}

    def key(self):
        return (self.env, self.fl, self.kd, self.cl, self.lk)


class Sum:
    def __init__(self):
        self.req = {}     # (param, path) -> (allowed tags, line, member)
        self.ret = None   # kinds of the returned object
        self.tag = None   # (param, path, constants): the tag is returned
        self.null = None  # nothing but NULL is returned
        self.same = None  # (param, path): returned object
        self.cond = {}    # class of result -> {(param, path): tags}

    def key(self):
        return ({k: v[0] for k, v in self.req.items()}, self.ret, self.tag,
                self.cond, self.same)


CLS = ("neg", "zero", "pos")


def classes(op, k):
    """the classes of values x with x op k"""
    r = set()
    for c, lo, hi in (("neg", -10 ** 9, -1), ("zero", 0, 0),
                      ("pos", 1, 10 ** 9)):
        if op == "<" and lo < k or op == "<=" and lo <= k or \
           op == ">" and hi > k or op == ">=" and hi >= k or \
           op == "==" and lo <= k <= hi or \
           op == "!=" and not (lo == hi == k):
            r.add(c)
    return r


def kmerge(a, b):
    r = dict(a)
    for s, x in b.items():
        r[s] = r[s] | x if s in r else x
    return r


class Kinds:
    def __init__(self, P):
        self.P = P
        self.enum = {}
        for e in P.enums.values():
            for n, v in e["vals"]:
                self.enum.setdefault(n, v)
        self.sums = {}
        self.accesses = 0
        self.reports = {}
        self.capped = set()
        self.skip = None
        self.member = {}
        for r, (tag, en, un, ms) in TAGGED.items():
            if r not in P.recs:
                raise Broken("record %s not found" % r)
            fs = [x[0] for x in P.recs[r]["fs"]]
            if tag not in fs or un not in fs or en not in P.enums:
                raise Broken("layout of %s not recognised" % r)
            self.member[r] = {}
            for m, vs in ms.items():
                k = ANY if vs[0][0] == "!" else 0
                for v in vs:
                    k ^= bit(self.enum[v.lstrip("!")])
                self.member[r][m] = k

    def relevant(self):
        out = []
        for f in self.P.fns:
            for t in f.vtype.values():
                if self.P.pointee_rec(f, t) in TAGGED or \
                        self.P.pointee_rec(f, t) in VIA:
                    out.append(f)
                    break
        return out

    # ---- values
    def obj(self, f, s, x):
        """identity of the object (or number) expression x denotes"""
        x = strip(x)
        if not x:
            return None
        k = x[0]
        if k == "v":
            v = x[1]
            if v in s.env:
                return s.env[v]
            return ("p", v) if v < f.np else ("u", v)
        if k == "t":
            return s.env.get(("t", x[1]), ("t", x[1]))
        if k == "i":
            return ("i", x[1])
        if k == "n":
            return ("i", 0)
        if k == "u" and x[1] == "-" and strip(x[2])[0] == "i":
            return ("i", -strip(x[2])[1])
        if k == "m":
            b = self.obj(f, s, x[1])
            if x[3] in TAGGED and x[2] == TAGGED[x[3]][0] and x[4]:
                return ("tag", b)
            if b is None:
                return None
            i = (b, x[2])
            return s.fl.get(i) or (("f", b, x[2]) if not deep(b) else
                                   ("u", "deep"))
        if k in ("*", "&"):
            return None
        return None

    def ppath(self, i):
        """(param, path) of a value loaded from a parameter at entry"""
        if not i:
            return None
        if i[0] == "p":
            return (i[1], ())
        if i[0] == "f":
            b = self.ppath(i[1])
            return (b[0], b[1] + (i[2],)) if b else None
        return None

    def rep(self, s, i):
        while i in s.lk:
            i = s.lk[i]
        return i

    def unlink(self, s, i):
        """the tag of i is about to change"""
        k = None
        for j in [j for j, o in s.lk.items() if o == i]:
            if k is None:
                k = self.kind(s, i)
            del s.lk[j]
            s.kd[j] = dict(k)
        s.lk.pop(i, None)

    def kind(self, s, i):
        i = self.rep(s, i)
        if i in s.kd:
            return s.kd[i]
        p = self.ppath(i)
        return {p: ANY}

    def restrict(self, s, i, allowed):
        """keep only the tags in allowed; False if none is left"""
        i = self.rep(s, i)
        k = {}
        for src, a in self.kind(s, i).items():
            a = a & allowed
            if a:
                k[src] = a
        if not k:
            return False
        s.kd[i] = k
        return True

    # ---- conditions
    def refine(self, f, s, cond, truth):
        if self.skip == (f.name, id(cond)):
            return True
        for op, l, r in facts(f, cond, truth, self.D):
            if not self.fact(f, s, op, l, r):
                return False
        return True

    def num(self, i):
        return i[1] if i and i[0] == "i" else None

    def fact(self, f, s, op, l, r):
        a, b = self.obj(f, s, l), self.obj(f, s, r)
        k = self.num(b)
        x = strip(l)
        if x and x[0] == "t" and self.D.get(x[1], [0])[0] == "asg":
            x = strip(self.D[x[1]][3])
        if x and x[0] == "m" and FLAGS.get(x[3], [0])[0] == x[2] and \
                k is not None and (op == "!=" and k == 0 or
                                   op == "==" and k != 0 or
                                   op == ">" and k >= 0):
            o = self.obj(f, s, x[1])
            if o is not None and not self.restrict(
                    s, o, self.member[x[3]][FLAGS[x[3]][1]]):
                return False
        if a is None:
            return True
        if k is None:
            if op == "==" and b and a[0] == "tag" == b[0] and \
                    len(a) == len(b) == 2 and a[1] and b[1]:
                x, y = self.rep(s, a[1]), self.rep(s, b[1])
                if x != y:
                    both = every(self.kind(s, x)) & every(self.kind(s, y))
                    if not self.restrict(s, x, both) or \
                            not self.restrict(s, y, both):
                        return False
                    # the one with a known origin represents both
                    if None in self.kind(s, x):
                        x, y = y, x
                    for j, o in list(s.lk.items()):
                        if o == y:
                            s.lk[j] = x
                    s.lk[y] = x
            return True
        if a[0] == "tag" and a[1] is not None:
            consts = a[2] if len(a) > 2 else 0
            return self.tagfact(s, a[1], op, k, consts)
        if a in s.cl:
            cl = s.cl[a]
            ok = {}
            cs = classes(op, k)
            if cl and not (cs & set(cl)):
                return False
            objs = None
            for c in cs & set(cl):
                objs = set(cl[c]) if objs is None else objs & set(cl[c])
            for o in objs or ():
                al = 0
                for c in cs & set(cl):
                    al |= cl[c][o]
                if not self.restrict(s, o, al):
                    return False
            s.cl[a] = {c: x for c, x in cl.items() if c in cs}
        return True

    def tagfact(self, s, o, op, k, consts):
        if op == "==":
            al = bit(k)
        elif op == "!=":
            al = ANY & ~bit(k)
        elif op == "<":
            al = rng(-OFF, k - 1)
        elif op == "<=":
            al = rng(-OFF, k)
        elif op == ">":
            al = rng(k + 1, WID)
        elif op == ">=":
            al = rng(k, WID)
        else:
            return True
        if consts & al:
            return True
        return self.restrict(s, o, al)

    # ---- statements
    def need(self, f, s, i, allowed, line, what, S):
        """the object must have one of the tags"""
        for src, a in self.kind(s, i).items():
            bad = a & ~allowed
            if not bad:
                continue
            if src is not None:
                old = S.req.get(src)
                al = ANY & ~bad
                if old:
                    al = al & old[0]
                    S.req[src] = (al,) + old[1:]
                else:
                    S.req[src] = (al, line, what)
            elif self.final:
                self.reports.setdefault((f.name, what), (f, line))
        # after a successful access the tag is what it has to be
        self.restrict(s, i, allowed) or s.kd.pop(self.rep(s, i), None)

    def access(self, f, s, x, S, line):
        for y in walk(x) if x else ():
            if y[0] != "m":
                continue
            b = y[1]
            if not b or b[0] != "m" or b[3] not in TAGGED:
                continue
            if b[2] != TAGGED[b[3]][2]:
                continue
            ms = self.member[b[3]]
            if y[2] not in ms:
                continue
            o = self.obj(f, s, b[1])
            if self.final:
                self.accesses += 1
            if o is None:
                o = ("unknown",)
                s.kd[o] = {None: ANY}
            self.need(f, s, o, ms[y[2]], y[6] if len(y) > 6 else line,
                      "%s.%s" % (b[3], y[2] or "expansion"), S)

    def assign(self, f, s, lhs, i):
        lhs = strip(lhs)
        if lhs[0] == "v":
            s.env[lhs[1]] = i if i is not None else ("u", lhs[1])
            if i is None:
                s.kd[("u", lhs[1])] = {None: ANY}
                s.cl.pop(("u", lhs[1]), None)
        elif lhs[0] == "m":
            b = self.obj(f, s, lhs[1])
            if b is None:
                return
            if lhs[3] in TAGGED and lhs[2] == TAGGED[lhs[3]][0]:
                k = self.num(i)
                self.unlink(s, b)
                if k is not None:
                    s.kd[b] = {None: bit(k)}
                elif i and i[0] == "p":
                    s.kd[b] = {("V", i[1]): ANY}
                elif i and i[0] == "tag" and i[1] is not None:
                    if self.rep(s, i[1]) != b:
                        s.lk[b] = self.rep(s, i[1])
                else:
                    s.kd[b] = {None: ANY}
                return
            if i is None:
                i = ("u", b, lhs[2])
                s.kd[i] = {None: ANY}
            s.fl[(b, lhs[2])] = i

    def call(self, f, s, e, S):
        t, name, args, line = e[1], e[2], e[3], e[4]
        me = ("t", t)
        s.env.pop(me, None)
        self.unlink(s, me)
        s.kd.pop(me, None)
        s.cl.pop(me, None)
        s.kd[me] = {None: ANY}
        for k in [k for k in s.fl if k[0] == me]:
            del s.fl[k]
        for k in [k for k in s.kd if k[0] == "f" and self.rooted(k, me)]:
            del s.kd[k]
        if not isinstance(name, str):
            return
        gs = self.P.targets(f, name)
        if name.startswith("__builtin_expect") and args:
            s.env[me] = self.obj(f, s, args[0])
            return
        if not gs:
            return
        sums = [self.summary(g) for g in gs]
        if any(x is None for x in sums):
            return
        ids = [self.obj(f, s, a) for a in args]

        def at(pp):
            i, sub = pp
            if i >= len(ids) or ids[i] is None:
                return None
            o = ids[i]
            for fl in sub:
                o = s.fl.get((o, fl), ("f", o, fl))
            return o
        for g, x in zip(gs, sums):
            for pp, (al, l, what) in x.req.items():
                if pp[0] == "V":
                    continue
                o = at(pp)
                if o is None:
                    o = ("unknown",)
                    s.kd[o] = {None: ANY}
                self.need(f, s, o, al, line, "%s needs %s" % (name, what)
                          if " needs " not in what else what, S)
        x = sums[0]
        if all(y.null for y in sums):
            s.env[me] = ("i", 0)
            return
        if len(sums) > 1:
            return
        if x.same is not None:
            o = at(x.same)
            if o is not None:
                s.env[me] = o
                return
        if x.tag is not None:
            o = at(x.tag[:2])
            if o is not None:
                s.env[me] = ("tag", o, x.tag[2])
                return
        if x.ret is not None:
            if len(x.ret) == 1:
                (src, a), = x.ret.items()
                o = None
                if src is not None and src[0] == "V":
                    i = ids[src[1]] if src[1] < len(ids) else None
                    if i and i[0] == "tag" and len(i) == 2:
                        o = i[1]
                elif src is not None:
                    o = at(src)
                if o is not None and self.rep(s, o) != me:
                    s.lk[me] = self.rep(s, o)
            k = {}
            for src, a in x.ret.items():
                if src is None:
                    q = {None: a}
                elif src[0] == "V":
                    i = ids[src[1]] if src[1] < len(ids) else None
                    n = self.num(i)
                    if n is not None:
                        q = {None: bit(n)}
                    elif i and i[0] == "p":
                        q = {("V", i[1]): a}
                    elif i and i[0] == "tag" and i[1] is not None:
                        q = self.kind(s, i[1])
                    else:
                        q = {None: ANY}
                else:
                    o = at(src)
                    if self.num(o) == 0:
                        continue
                    if o is None:
                        q = {None: a}
                    else:
                        q = {}
                        for s2, a2 in self.kind(s, o).items():
                            if a & a2:
                                q[s2] = a & a2
                k = kmerge(k, q)
            s.kd[me] = k
        if x.cond:
            cl = {}
            for c, d in x.cond.items():
                cl[c] = {}
                for pp, al in d.items():
                    o = at(pp)
                    if o is not None:
                        cl[c][o] = al
            s.cl[me] = cl

    def rooted(self, i, r):
        while i and i[0] == "f":
            i = i[1]
        return i == r

    def rets(self, f, s, x, S):
        i = self.obj(f, s, x) if x else None
        T = self.P.ty(f, f.ret)
        ptr = T[1] == "p"
        if x is None:
            return
        if ptr:
            S.null = S.null is not False and self.num(i) == 0
        y = strip(x)
        isnull = self.num(i) == 0
        # kinds of the result
        if ptr and self.P.pointee_rec(f, f.ret) in TAGGED and not isnull:
            k = self.kind(s, i) if i is not None else {None: ANY}
            S.ret = k if S.ret is None else kmerge(S.ret, k)
            p = self.ppath(i)
            if p is None or S.same not in (None, p):
                S.same = False
            elif S.same is None:
                S.same = p
        if not ptr:
            n = self.num(i)
            if i is not None and i[0] == "tag" and S.tag is not False:
                p = self.ppath(i[1])
                c = i[2] if len(i) > 2 else 0
                if p is None or S.tag and S.tag[:2] and S.tag[:2] != p:
                    S.tag = False
                else:
                    S.tag = (p[0], p[1], (S.tag[2] if S.tag else 0) | c |
                             self.tc)
            elif n is not None:
                self.tc |= bit(n)
                if S.tag:
                    S.tag = S.tag[:2] + (S.tag[2] | bit(n),)
            else:
                S.tag = False
        # what the class of the result says about the parameters
        for c in CLS:
            if ptr and c == "neg":
                continue
            t = St(s)
            if y[0] == "i" or y[0] == "n":
                k = y[1] if y[0] == "i" else 0
                if c not in classes("==", k):
                    continue
            else:
                ops = {"neg": [("<", 0)], "zero": [("==", 0)],
                       "pos": [(">", 0)] if not ptr else [("!=", 0)]}[c]
                ok = True
                z = y
                if z[0] == "t":
                    d = self.D.get(z[1])
                    if d and d[0] == "call" and d[2] == "isl_bool_ok":
                        z = d[3][0]
                if z[0] in ("b", "u") and (z[0] == "u" and z[1] == "!" or
                                           z[0] == "b" and z[1] in FLIP):
                    if c == "neg":
                        continue
                    ok = self.refine(f, t, z, c == "pos")
                else:
                    for op, k in ops:
                        ok = ok and self.fact(f, t, op, y, ["i", k])
                if not ok:
                    continue
            d = {}
            for o, k in t.kd.items():
                p = self.ppath(o)
                if p is None:
                    continue
                d[p] = every(k)
            if c not in S.cond:
                S.cond[c] = d
            else:
                old = S.cond[c]
                S.cond[c] = {p: old[p] | d[p] for p in old if p in d}

    # ---- one function
    def run(self, f):
        S = Sum()
        self.D = defs_of(f)
        self.tc = 0
        inst = {f.entry: St()}
        pos = self.order(f)
        work = {f.entry}
        cnt = {}
        while work:
            b = min(work, key=pos.get)
            work.discard(b)
            cnt[b] = cnt.get(b, 0) + 1
            if cnt[b] > 25:
                self.capped.add(f.name)
                continue
            B = f.blocks[b]
            s = self.block(f, B, St(inst[b]), S, None)
            if s is None:
                continue
            for tgt, t in self.edges(f, B, s):
                old = inst.get(tgt)
                if old is None:
                    inst[tgt] = t
                    work.add(tgt)
                else:
                    j = self.join(old, t, tgt)
                    if j.key() != old.key():
                        inst[tgt] = j
                        work.add(tgt)
        # the summary is read off the stable states
        S = Sum()
        self.tc = 0
        self.collect = True
        fin = self.final
        for b in sorted(inst):
            self.block(f, f.blocks[b], St(inst[b]), S, True)
        if S.same is False:
            S.same = None
        if S.tag is False:
            S.tag = None
        return S

    def order(self, f):
        """positions of the blocks in reverse postorder"""
        seen, post = set(), []
        st = [(f.entry, iter(f.blocks[f.entry].succ))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for t in it:
                if t is not None and t >= 0 and t not in seen:
                    seen.add(t)
                    st.append((t, iter(f.blocks[t].succ)))
                    break
            else:
                post.append(b)
                st.pop()
        return {b: -i for i, b in enumerate(post)}

    def block(self, f, B, s, S, last):
        fin, self.final = self.final, self.final and bool(last)
        try:
            for e in B.els:
                k = e[0]
                line = e[-1] if isinstance(e[-1], int) else 0
                if k == "call":
                    for a in e[3]:
                        self.access(f, s, a, S, e[4])
                    self.call(f, s, e, S)
                elif k == "asg":
                    self.access(f, s, e[3], S, line)
                    self.access(f, s, e[2], S, line)
                    i = self.obj(f, s, e[3])
                    self.assign(f, s, e[2], i)
                    s.env[("t", e[1])] = i if i is not None else ("u", "t", e[1])
                elif k == "decl":
                    if e[2]:
                        self.access(f, s, e[2], S, line)
                        self.assign(f, s, ["v", e[1]], self.obj(f, s, e[2]))
                    else:
                        self.assign(f, s, ["v", e[1]], None)
                elif k in ("casg", "inc"):
                    self.access(f, s, e[3], S, line)
                    if k == "casg" and isinstance(e[4], list):
                        self.access(f, s, e[4], S, line)
                    l = strip(e[3])
                    if l[0] == "v":
                        self.assign(f, s, l, None)
                elif k == "ret":
                    self.access(f, s, e[1], S, line)
                    if last:
                        self.rets(f, s, e[1], S)
                elif k == "phi":
                    me = ("t", e[1])
                    i = None
                    if isinstance(e[2], list):
                        self.access(f, s, e[2], S, line)
                        i = self.obj(f, s, e[2])
                    self.unlink(s, me)
                    s.kd[me] = {None: ANY}
                    s.cl.pop(me, None)
                    s.env[me] = i if i is not None and i != me else me
                else:
                    self.access(f, s, e[1] if len(e) > 1 and
                                isinstance(e[1], list) else None, S, line)
            if B.term and B.term[1]:
                self.access(f, s, B.term[1], S, B.term[2])
        finally:
            self.final = fin
        return None if B.noret else s

    def edges(self, f, B, s):
        if not B.term or not B.term[1] or len(B.succ) < 2:
            return [(t, St(s)) for t in B.succ if t is not None and t >= 0]
        r = []
        if B.term[0] == "switch":
            i = self.obj(f, s, B.term[1])
            cases = []
            for t in B.succ:
                if t is None or t < 0:
                    continue
                lab = f.blocks[t].label
                if lab and lab[0] == "case":
                    lo = lab[1]
                    hi = lab[2] if len(lab) > 2 and lab[2] is not None else lo
                    cases.append((lo, hi))
            for t in B.succ:
                if t is None or t < 0:
                    continue
                lab = f.blocks[t].label
                u = St(s)
                ok = True
                if i and i[0] == "tag" and i[1] is not None:
                    consts = i[2] if len(i) > 2 else 0
                    if lab and lab[0] == "case":
                        lo = lab[1]
                        hi = lab[2] if len(lab) > 2 and lab[2] is not None \
                            else lo
                        al = rng(lo, hi)
                        if not (consts & al):
                            ok = self.restrict(u, i[1], al)
                    else:
                        al = ANY
                        for lo, hi in cases:
                            al = al & ~rng(lo, hi)
                        if not (consts & al):
                            ok = self.restrict(u, i[1], al)
                if ok:
                    r.append((t, u))
            return r
        for n, t in enumerate(B.succ[:2]):
            if t is None or t < 0:
                continue
            u = St(s)
            if self.refine(f, u, B.term[1], n == 0):
                r.append((t, u))
        return r

    def join(self, a, b, at):
        r = St()
        for d, x, y, o in (("env", a.env, b.env, 0), ("fl", a.fl, b.fl, 1)):
            out = getattr(r, d)
            for k in set(x) | set(y):
                u, v = x.get(k), y.get(k)
                if u == v:
                    out[k] = u
                    continue
                if u is None:
                    u = self.dflt(k, o)
                if v is None:
                    v = self.dflt(k, o)
                if u == v:
                    out[k] = u
                    continue
                if u and v and u[0] in ("tag", "i") and v[0] in ("tag", "i") \
                        and "tag" in (u[0], v[0]):
                    os = {w[1] for w in (u, v) if w[0] == "tag"}
                    if len(os) == 1:
                        c = 0
                        for w in (u, v):
                            c |= bit(w[1]) if w[0] == "i" else \
                                w[2] if len(w) > 2 else 0
                        out[k] = ("tag", os.pop(), c)
                        continue
                j = ("j", at, k)
                out[k] = j
                r.kd[j] = kmerge(self.kindval(a, u), self.kindval(b, v))
                # a null value has no kind of its own
                if self.num(u) == 0 and self.num(v) is None:
                    r.kd[j] = self.kindval(b, v)
                elif self.num(v) == 0 and self.num(u) is None:
                    r.kd[j] = self.kindval(a, u)
        for k in set(a.kd) | set(b.kd):
            if k in r.kd and k[0] == "j" and k[1] == at:
                continue
            u = self.kind(a, k) if k in a.kd else \
                ({self.ppath(k): ANY} if self.ppath(k) else None)
            v = self.kind(b, k) if k in b.kd else \
                ({self.ppath(k): ANY} if self.ppath(k) else None)
            if u is None:
                r.kd[k] = v
            elif v is None:
                r.kd[k] = u
            else:
                r.kd[k] = kmerge(u, v)
        for k in set(a.cl) | set(b.cl):
            x, y = a.cl.get(k), b.cl.get(k)
            if x is None or y is None:
                r.cl[k] = x or y
                continue
            out = {}
            for c in set(x) | set(y):
                if c not in x or c not in y:
                    out[c] = x.get(c) if c in x else y[c]
                else:
                    out[c] = {o: x[c][o] | y[c][o] for o in x[c] if o in y[c]}
            r.cl[k] = out
        for i, o in a.lk.items():
            if b.lk.get(i) == o:
                r.lk[i] = o
        for i in set(a.lk) | set(b.lk):
            if i not in r.lk:
                r.kd[i] = kmerge(self.kind(a, i), self.kind(b, i))
        return r

    def dflt(self, k, o):
        if o == 0:
            return ("p", k) if isinstance(k, int) else ("u", k)
        return ("f",) + k

    def kindval(self, s, i):
        if i and i[0] in ("tag", "i"):
            return {None: ANY}
        return self.kind(s, i)

    def involved(self, f):
        """a tagged object goes in or comes out"""
        r = self.inv.get(id(f))
        if r is None:
            r = self.inv[id(f)] = any(
                self.P.pointee_rec(f, t) in TAGGED or
                self.P.pointee_rec(f, t) in VIA
                for t in [p[1] for p in f.ps] + [f.ret])
        return r

    def summary(self, f):
        """summary of f, computed when it is first needed; nothing is known
        about calls that lead back to a function being analysed"""
        k = id(f)
        if k in self.sums:
            return self.sums[k]
        if not self.involved(f):
            self.sums[k] = None
            return None
        self.sums[k] = None
        D = getattr(self, "D", None), getattr(self, "tc", 0), self.final
        self.final = True
        self.sums[k] = self.run(f)
        self.D, self.tc, self.final = D
        return self.sums[k]

    def solve(self):
        import sys
        sys.setrecursionlimit(20000)
        self.inv = {}
        self.final = False
        todo = []
        for f in self.P.fns:
            for b in f.blocks.values():
                if any(x[0] == "m" and x[1] and x[1][0] == "m" and
                       x[1][3] in TAGGED and x[1][2] == TAGGED[x[1][3]][2] and
                       x[2] in self.member[x[1][3]]
                       for x in walk(b.els + [b.term])):
                    todo.append(f)
                    break
        self.direct = len(todo)
        callers = self.P.callers()
        done = {}
        while todo:
            f = todo.pop()
            if id(f) in done:
                continue
            done[id(f)] = f
            S = self.summary(f)
            if S is None:
                self.inv[id(f)] = True
                self.sums.pop(id(f), None)
                S = self.summary(f)
            if any(p[0] != "V" for p in S.req):
                for g in callers.get(f.name, ()):
                    if g is not None and f in self.P.targets(g, f.name):
                        todo.append(g)
        self.nfns = len(done)
        return list(done.values())


def kinds(out, baseline=None):
    P = program()
    K = Kinds(P)
    rel = K.solve()
    acc = baseline if baseline is not None else \
        json.load(open(os.path.join(VERIF, "rules", "kinds.json")))
    found = {}
    for (fn, what), (f, line) in K.reports.items():
        found.setdefault(fn, {})[what] = (f, line, "on a path on which the "
                                          "kind of the object is not known "
                                          "to be the right one")
    pub = P.public()
    callers = P.callers()
    taken = set()
    for f in P.fns:
        for b in f.blocks.values():
            for x in walk(b.els + [b.term]):
                if x[0] == "f" and len(x) > 1:
                    taken.add(x[1])
    for g in P.gvs:
        if g.get("init"):
            for x in walk(g["init"]):
                if x[0] == "f":
                    taken.add(x[1])
    for f in rel:
        S = K.sums[id(f)]
        if f.name not in pub and f.name not in taken:
            continue
        for pp, (al, line, what) in S.req.items():
            if pp[0] == "V":
                continue
            found.setdefault(f.name, {}).setdefault(
                what, (f, line, "although the kind of argument '%s' was not "
                       "checked" % f.ps[pp[0]][0]))
    # by function and member: which callee needs it does not matter
    by = {}
    for fn, d in found.items():
        for what, x in d.items():
            by.setdefault(fn, {}).setdefault(what.split(" needs ")[-1],
                                             (what,) + x)
    und = 0
    for fn, d in sorted(by.items()):
        for m, (what, f, line, why) in sorted(d.items()):
            if m in acc.get(fn, {}):
                und += 1
                continue
            out.v("kind-unchecked", fn, "%s:%d" % (f.file, line),
                  "%s accessed %s" % (what, why))
    out.count("functions_analysed", K.nfns)
    out.count("accesses_to_members_of_tagged_unions", K.accesses)
    out.count("accesses_not_decided", und)
    out.count("functions_too_large", len(K.capped))
    out.floor("functions_analysed", 120)
    out.floor("accesses_to_members_of_tagged_unions", 400)
    return by
