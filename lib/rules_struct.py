"""Structural rules: facts every function of a kind has to satisfy, decided
on the control flow graphs and the record layouts of the current source."""
import json, os, re, sys
from prog import *
from rules_effects import Out


def settled(P, f):
    """Was f there when the rules were reviewed, or is it visible outside its
    file?  The static helpers a function was later split into are judged
    through their callers."""
    if not hasattr(P, "_base"):
        P._base = set(json.load(open(os.path.join(VERIF, "rules",
                                                  "functions.json"))))
    return f.name in P._base or not f.static


def loc(f, line):
    return "%s:%d" % (f.file, line)


class Alias:
    """What the variables and temporaries of a function stand for: those that
    always hold the value of one given parameter."""

    def __init__(self, P, f, pi):
        self.vs, self.ts = {pi}, set()
        changed = True
        while changed:
            changed = False
            for b in f.blocks.values():
                for e in b.els:
                    if e[0] == "asg" and self.is_(e[3]):
                        if e[2][0] == "v" and e[2][1] not in self.vs:
                            self.vs.add(e[2][1])
                            changed = True
                        if e[1] not in self.ts:
                            self.ts.add(e[1])
                            changed = True
                    elif e[0] == "call" and len(e[3]) == 1 and \
                            self.is_(e[3][0]) and e[1] not in self.ts and \
                            any(identity(g) for g in P.targets(f, e[2])):
                        self.ts.add(e[1])
                        changed = True
                    elif e[0] == "decl" and e[2] and self.is_(e[2]) and \
                            e[1] not in self.vs:
                        self.vs.add(e[1])
                        changed = True

    def is_(self, x):
        while x and x[0] == "c":
            x = x[2]
        if not x:
            return False
        if x[0] == "v":
            return x[1] in self.vs
        return x[0] == "t" and x[1] in self.ts


def identity(f):
    """Does f merely convert its argument?"""
    rets = [e for b in f.blocks.values() for e in b.els if e[0] == "ret"]
    els = [e for b in f.blocks.values() for e in b.els]
    if len(els) > 2 or len(rets) != 1 or len(f.ps) != 1:
        return False
    x = rets[0][1]
    while x and x[0] == "c":
        x = x[2]
    return bool(x) and x[0] == "v" and x[1] == 0


def reads(P, f, pi, memo, stop=None):
    """The fields of the record parameter pi points to that f looks at,
    itself or by passing the pointer on."""
    k = (f.unit, f.name, pi)
    if k in memo:
        return memo[k]
    memo[k] = r = set()
    rec = P.pointee_rec(f, f.ps[pi][1])
    al = Alias(P, f, pi)
    for b in f.blocks.values():
        for x in walk(b.els + [b.term]):
            if x[0] == "m" and x[3] == rec and al.is_(x[1]):
                r.add(x[2])
            elif x[0] == "*" and al.is_(x[1]):
                r.add("*")
    for c in P.calls(f):
        for i, a in enumerate(c[1]):
            if not al.is_(a):
                continue
            for g in P.targets(f, c[0]):
                if stop and stop(g):
                    continue
                if i < len(g.ps) and \
                        P.pointee_rec(g, g.ps[i][1]) == rec:
                    r |= reads(P, g, i, memo, stop)
    return r


def load_rules(name):
    return json.load(open(os.path.join(VERIF, "rules", name)))


# ---------------------------------------------------------------- C08
def take_restore(out):
    """A field taken out of an object is put back before the object is used
    as a result."""
    P = program()
    n = 0
    for f in P.fns:
        if not settled(P, f):
            continue
        aliases = {}

        def obj(x, f=f):
            while x and x[0] == "c":
                x = x[2]
            if x and x[0] == "t":
                d = D.get(x[1])
                if d and d[0] == "asg":
                    return obj(d[2] if d[2][0] == "v" else d[3])
                if d and d[0] == "call":
                    return None
            return x[1] if x and x[0] == "v" else None
        D = None
        for b in f.blocks.values():
            for i, e in enumerate(b.els):
                if e[0] != "call" or not isinstance(e[2], str) or \
                        "_take_" not in e[2]:
                    continue
                rs = e[2].replace("_take_", "_restore_", 1)
                if rs not in P.by_name:
                    continue
                if f.name.startswith((e[2], rs)):
                    continue
                D = D or defs_of(f)
                n += 1
                v = obj(e[3][0])
                puts = putters(P, f, rs)
                bad = None
                seen, work = set(), [(b.id, i + 1)]
                while work and not bad:
                    bi, j = work.pop()
                    B = f.blocks[bi]
                    stop = False
                    for s in B.els[j:]:
                        if s[0] == "call":
                            nm = s[2] if isinstance(s[2], str) else ""
                            if nm in puts:
                                stop = True
                                break
                            if nm.endswith("_free") and s[3] and \
                                    v is not None and obj(s[3][0]) == v:
                                stop = True
                                break
                            if v is not None and any(
                                    obj(a) == v for a in s[3]) and any(
                                    g.static and not settled(P, g)
                                    for g in P.targets(f, s[2])):
                                # a helper that was split off
                                stop = True
                                break
                        if s[0] == "ret":
                            if s[1] and uncast(s[1]) == ["t", e[1]]:
                                stop = True
                            else:
                                bad = s
                            break
                    if stop or bad:
                        continue
                    for s in B.succ:
                        if s is not None and s not in seen:
                            seen.add(s)
                            work.append((s, 0))
                if bad:
                    out.v("taken-field-not-restored", f.name, loc(f, e[4]),
                          "the field taken by %s is not put back by %s on the "
                          "path to the return at line %s" %
                          (e[2], rs, bad[2]), [loc(f, bad[2])])
    out.count("take_calls_with_restore_obligation", n)
    out.floor("take_calls_with_restore_obligation", 250)


def putters(P, f, rs):
    """The functions that put the field back: the restore function, its
    variants, and static functions that call them."""
    if not hasattr(P, "_putters"):
        P._putters = {}
    if rs not in P._putters:
        r = {g for g in P.by_name if g == rs or g.startswith(rs + "_")}
        work = list(r)
        while work:
            g = work.pop()
            for h in P.callers().get(g, []):
                if h is not None and h.static and h.name not in r and \
                        not settled(P, h):
                    r.add(h.name)
                    work.append(h.name)
        P._putters[rs] = r
    return P._putters[rs]


# ---------------------------------------------------------------- C14
# fields that do not own what they point to
BORROWED = {
    "tab_lp.obj": "the objective is borrowed for one solver call",
    "isl_ctx.cache": "blocks are released by isl_ctx_free through n_cached",
    "isl_ctx.error_msg": "string literal", "isl_ctx.error_file":
    "string literal",
    "isl_basic_map.eq": "points into the array of inequalities",
    "isl_vec.el": "points into the block",
    "isl_access_info.level_before": "callback",
    "isl_access_info.coscheduled": "callback",
    "isl_access_info.restrict_fn": "callback",
    "isl_sol.dec_level": "embedded callback",
    "isl_context.op": "static table",
    "isl_scc_graph.graph": "borrowed from the scheduler",
    "isl_scc_graph.c": "borrowed from the scheduler",
    "isl_tab.bottom": "embedded end marker", "isl_tab.top":
    "released through free_undo",
    "isl_sol.partial": "released by the specific destructors",
    "isl_printer.ops": "static table", "isl_printer.file": "owned by the user",
    "isl_stream.file": "owned by the user", "isl_stream.str":
    "owned by the user",
    "isl_stream.tokens": "released through n_token",
    "isl_fixed_map.map": "array owned through the first element",
    "vars.ctx": "no reference is taken",
}


def dead_end(P, f, t):
    """Is t a type that cannot own anything: a pointer to a function, to an
    unspecified or to a constant object, or an array of plain values?"""
    sp, k = t[0], t[1]
    if "(*)" in sp:
        return True
    if k == "p":
        e = f.T[t[3]]
        if e[1] in ("o", "i", "v") and e[0] in ("void", "FILE"):
            return True
        return sp.startswith("const ") or "(*)" in e[0] or e[1] == "f"
    return False


def handed(args, D, V):
    """(member access, whether an element of it is meant): what the arguments
    of a call consist of (rather than those through which the argument is
    reached)"""
    todo, seen = [(x, False) for x in args], set()
    while todo:
        x, el = todo.pop()
        if not isinstance(x, list) or not x:
            continue
        if x[0] == "m":
            yield x, el
            if not x[4]:
                # part of an embedded record
                todo.append((x[1], el))
        elif x[0] in ("*", "x"):
            todo.append((x[1], True))
        elif x[0] == "&":
            todo.append((x[1], el))
        elif x[0] == "c":
            todo.append((x[2], el))
        elif x[0] == "b":
            todo += [(x[2], True), (x[3], True)]
        elif x[0] == "t":
            d = D.get(x[1])
            if d and d[0] == "asg" and (d[1], el) not in seen:
                seen.add((d[1], el))
                todo.append((d[3], el))
        elif x[0] == "v" and ("v", x[1], el) not in seen:
            seen.add(("v", x[1], el))
            todo += [(y, el) for y in V.get(x[1], [])]


def released_fields(P, f, memo, depth=0):
    """(record, field) pairs that occur in the arguments of calls made by f
    or by the functions f hands its own work to."""
    k = (f.unit, f.name)
    if k in memo:
        return memo[k]
    memo[k] = r = {}
    D = defs_of(f)
    V = {}
    for b in f.blocks.values():
        for e in b.els:
            if e[0] == "asg" and e[2][0] == "v":
                V.setdefault(e[2][1], []).append(e[3])
            elif e[0] == "decl" and e[2]:
                V.setdefault(e[1], []).append(e[2])
    for nm, args, line, tmp, callee, blk in P.calls(f):
        if nm == "isl_handle_error":
            continue
        for x, el in handed(args, D, V):
            r.setdefault((x[3], x[2]), set()).add(
                "cleared" if nm == "isl_hash_table_clear" else
                "elements" if el else "itself")
        for g in P.targets(f, nm):
            if g.file == f.file and (g.static or depth < 3):
                for q, w in released_fields(P, g, memo, depth + 1).items():
                    r.setdefault(q, set()).update(w)
    return r


def derive_roles():
    """how each field is released: function -> field -> ways"""
    P = program()
    memo, res = {}, {}
    own = {}
    for f, rec in destructors(P):
        res.setdefault(f.name, set()).add(f)
        own.setdefault(rec, set()).add(f.name)
    for name in load_rules("fields.json")["released"]:
        res.setdefault(name, set()).update(P.by_name.get(name, ()))
    r = {}
    for name, fs in sorted(res.items()):
        for f in fs:
            for (rec, fl), w in sorted(released_fields(P, f, memo).items()):
                R = P.recs.get(rec)
                t = [x for x in R["fs"] if x[0] == fl] if R else None
                if own.get(rec) and name not in own[rec]:
                    continue
                if t and P.types[R["unit"]][t[0][1]][1] in ("p", "a", "r") \
                        and "isl_ctx" not in P.types[R["unit"]][t[0][1]][0]:
                    r.setdefault(name, {}).setdefault(
                        "%s.%s" % (rec, fl), set()).update(w)
    return {n: {q: sorted(w) for q, w in x.items()} for n, x in r.items()}


def ways_rule(P, memo, out):
    """A field that is an array or a table is released in several ways: its
    elements, and the storage that holds them.  None of these is lost."""
    for name, fields in sorted(load_rules("released.json").items()):
        for f in P.by_name.get(name, ()):
            if not settled(P, f):
                continue
            rel = released_fields(P, f, memo)
            for q, ways in fields.items():
                rec, fl = q.rsplit(".", 1)
                R = P.recs.get(rec)
                if not R or not any(x[0] == fl for x in R["fs"]):
                    continue
                out.count("ways_of_releasing_a_field", len(ways))
                for w in set(ways) - rel.get((rec, fl), set()):
                    if (rec, fl) in rel or w == "elements":
                        out.v("field-not-released", f.name, loc(f, f.line),
                              {"itself": "does not release the field %s",
                               "elements": "does not release the elements of "
                               "the field %s",
                               "cleared": "does not clear the table %s"}[w] %
                              q + " any longer")


def destructors(P):
    """(function, record): functions that release the storage of the record
    their first parameter points to."""
    for f in P.fns:
        if not f.ps:
            continue
        rec = P.pointee_rec(f, f.ps[0][1])
        if not rec or rec not in P.recs:
            continue
        al = Alias(P, f, 0)
        for c in P.calls(f):
            if c[0] == "free" and c[1] and al.is_(c[1][0]):
                yield f, rec
                break


def is_int(T, t):
    """Is t the type isl_int (a multiple precision integer or an array of
    one of them)?"""
    while t[1] == "a":
        t = T[t[3]]
    return t[1] == "r" and t[2] in ("__mpz_struct", "mpz", "mp_int") or \
        t[0] == "isl_int"


def element_fields(P, u, rec, fl, own):
    """(record, field) pairs owned by the elements that field fl of rec
    points to, if these elements have no destructor of their own"""
    t = u.T[fl[1]]
    if t[1] not in ("p", "a"):
        return
    e = u.T[t[3]]
    r2 = e[2]
    if e[1] != "r" or r2 in own or r2 not in P.recs or \
            any(x[0] == "ref" for x in P.recs[r2]["fs"]):
        return

    class U:
        pass
    v = U()
    v.T = P.types[P.recs[r2]["unit"]]
    for g in P.recs[r2]["fs"]:
        t2 = v.T[g[1]]
        if t2[1] in ("p", "a") and not dead_end(P, v, t2) and \
                g[0] != "next" and "(*)" not in t2[0]:
            yield r2, g[0]


def destructor_rule(out):
    P = program()
    memo = {}
    derefs = {}
    own = {rec for f, rec in destructors(P)}
    for f, rec in destructors(P):
        if not settled(P, f):
            continue
        R = P.recs[rec]
        T = P.types[R["unit"]]
        out.count("destructors")
        rel = released_fields(P, f, memo)
        names = [x[0] for x in R["fs"]]

        class U:
            pass
        u = U()
        u.T = T
        for fl in R["fs"]:
            t = T[fl[1]]
            if is_int(T, t):
                out.count("owned_integers")
                if (rec, fl[0]) not in rel and \
                        "%s.%s" % (rec, fl[0]) not in BORROWED:
                    out.v("field-not-released", f.name, loc(f, f.line),
                          "releasing a %s does not clear its field %s" %
                          (rec, fl[0]))
            es = list(element_fields(P, u, rec, fl, own))
            if any(x in rel for x in es):
                for x in es:
                    out.count("owned_fields_of_elements")
                    if x not in rel:
                        out.v("field-not-released", f.name, loc(f, f.line),
                              "releasing a %s does not release the field %s "
                              "of its elements" % (rec, x[1]))
            if t[1] not in ("p", "r") or dead_end(P, u, t):
                continue
            q = "%s.%s" % (rec, fl[0])
            if q in BORROWED or fl[0] == "next":
                continue
            out.count("owned_fields")
            if (rec, fl[0]) not in rel:
                out.v("field-not-released", f.name, loc(f, f.line),
                      "releasing a %s does not release its field %s" %
                      (rec, fl[0]))
        if "ref" in names and rec != "isl_ctx":
            out.count("reference_counted_types")
            check_ref(P, f, rec, out)
        if "ctx" in names and f.name.endswith("_free"):
            derefs[rec] = (f, any("isl_ctx_deref" in P.refs(g)
                                  for g in local_closure(P, f)))
    emptied_records(P, memo, out)
    ways_rule(P, memo, out)
    constructors(P, derefs, out)
    out.floor("destructors", 80)
    out.floor("fields_of_emptied_records", 80)
    out.floor("owned_fields", 120)
    out.floor("reference_counted_types", 55)


def emptied_records(P, memo, out):
    """Functions that release what a record holds without releasing the
    record itself (typically a record on the stack of the caller) have no
    storage to recognise them by.  The fields they are responsible for are
    listed in rules/fields.json."""
    for name, fields in sorted(load_rules("fields.json")["released"].items()):
        for f in P.by_name.get(name, ()):
            if not settled(P, f):
                continue
            rel = released_fields(P, f, memo)
            for q in fields:
                rec, fl = q.rsplit(".", 1)
                R = P.recs.get(rec)
                if not R or not any(x[0] == fl for x in R["fs"]):
                    continue
                out.count("fields_of_emptied_records")
                if (rec, fl) not in rel:
                    out.v("field-not-released", f.name, loc(f, f.line),
                          "does not release the field %s of %s any longer" %
                          (fl, rec))


def local_closure(P, f, seen=None):
    seen = seen if seen is not None else {}
    if f.name in seen:
        return seen.values()
    seen[f.name] = f
    for c in P.calls(f):
        for g in P.targets(f, c[0]):
            if g.static and g.file == f.file:
                local_closure(P, g, seen)
    return seen.values()


def check_ref(P, f, rec, out):
    """The storage is only released on a path on which the reference count
    was decremented and found to be zero."""
    al = Alias(P, f, 0)

    def has_ref(e):
        return any(x[0] == "m" and x[2] == "ref" and x[3] == rec
                   for x in walk(e))
    dec = any(e[0] in ("inc", "casg", "asg") and has_ref(e)
              for b in f.blocks.values() for e in b.els)
    helpers = [g for g in local_closure(P, f) if g is not f]
    if not dec and not any(e[0] in ("inc", "casg", "asg") and has_ref(e)
                           for g in helpers
                           for b in g.blocks.values() for e in b.els):
        out.v("reference-not-dropped", f.name, loc(f, f.line),
              "a %s is released without dropping a reference" % rec)
        return
    if not dec:
        return
    # from the decrement, the release is only reached over a branch on which
    # the count is known to be zero
    D = defs_of(f)

    def is_ref(x):
        """the count after the decrement: 0, or before: 1"""
        x = uncast(x)
        if x[0] == "m" and x[2] == "ref" and x[3] == rec:
            return 0
        if x[0] == "t":
            d = D.get(x[1])
            if d and d[0] in ("inc", "casg") and has_ref(d[3:4]):
                return 1 if d[0] == "inc" and d[2] == "p--" else 0
            if d and d[0] == "asg" and (has_ref([d[2]]) or has_ref([d[3]])):
                return 0
        if x[0] == "v":
            d = single_def(f, x[1])
            if d:
                return is_ref(d)
        return None

    def zero(B, k):
        if not B.term or not B.term[1] or len(B.succ) != 2:
            return False
        for op, x, y in facts(f, B.term[1], k == 0, D):
            n = is_ref(x)
            y = uncast(y)
            if n is None or y[0] != "i":
                continue
            if op in ("<=", "==") and y[1] == n or \
                    op == "<" and y[1] == n + 1:
                return True
        return False

    for b in f.blocks.values():
        for i, e in enumerate(b.els):
            lv = e[2:3] if e[0] == "asg" else e[3:4]
            if e[0] in ("inc", "casg", "asg") and has_ref(lv):
                out.count("reference_count_decrements")
                seen, work = set(), [(b.id, i + 1)]
                while work:
                    bi, j = work.pop()
                    B = f.blocks[bi]
                    for s in B.els[j:]:
                        if s[0] == "call" and s[2] == "free" and \
                                al.is_(s[3][0]):
                            out.v("released-while-referenced", f.name,
                                  loc(f, s[4]),
                                  "the %s is released on a path on which the "
                                  "reference count is not known to have "
                                  "become zero" % rec)
                            return
                    for k, s in enumerate(B.succ):
                        if s is not None and s in f.blocks and \
                                s not in seen and not zero(B, k):
                            seen.add(s)
                            work.append((s, 0))


def constructors(P, derefs, out):
    """An object whose release drops a reference to its context takes one
    when it is created."""
    for f in P.fns:
        if not settled(P, f):
            continue
        for b in f.blocks.values():
            for e in b.els:
                if e[0] != "asg" or e[2][0] != "m" or e[2][2] != "ctx":
                    continue
                rec = e[2][3]
                if rec not in derefs:
                    continue
                g, want = derefs[rec]
                out.count("context_fields_initialised")
                has = any("isl_ctx_ref" in P.refs(h)
                          for h in local_closure(P, f))
                if want and not has:
                    out.v("context-not-referenced", f.name, loc(f, e[4]),
                          "a %s is created without taking a reference to its "
                          "context, while %s drops one" % (rec, g.name))
                if has and not want:
                    out.v("context-not-dereferenced", g.name, loc(g, g.line),
                          "a %s is released without dropping the reference to "
                          "the context taken in %s" % (rec, f.name))


# ---------------------------------------------------------------- C15
def copies(out):
    """isl_*_dup copies every field; equality looks at every field of both
    operands; the hash only looks at what equality looks at."""
    P = program()
    ex = load_rules("fields.json")
    memo, wmemo = {}, {}
    for f in P.fns:
        if not f.ps or not settled(P, f):
            continue
        rec = P.pointee_rec(f, f.ps[0][1])
        if not rec or rec not in P.recs:
            continue
        fs = [x[0] for x in P.recs[rec]["fs"]]
        if re.search(r"_dup$", f.name):
            rd = reads(P, f, 0, memo)
            if "*" in rd:
                continue
            out.count("duplicating_functions")
            for x in fs:
                if x == "ref" or x in ex["dup"].get(rec, {}):
                    continue
                out.count("fields_to_copy")
                if x not in rd:
                    out.v("field-not-copied", f.name, loc(f, f.line),
                          "%s does not look at the field %s of the object it "
                          "duplicates" % (f.name, x))
            miswired(P, f, rec, out)
        elif re.search(r"(^|_)(plain_)?is_equal$", f.name) and \
                len(f.ps) > 1 and P.pointee_rec(f, f.ps[1][1]) == rec:
            r0, r1 = reads(P, f, 0, memo), reads(P, f, 1, memo)
            out.count("equality_functions")
            sk = ex["equal"].get(rec, {})
            for x in fs:
                if x == "ref" or x in sk:
                    continue
                out.count("fields_to_compare")
                for side, r in (("first", r0), ("second", r1)):
                    if x not in r:
                        out.v("field-not-compared", f.name, loc(f, f.line),
                              "%s does not look at the field %s of its %s "
                              "argument" % (f.name, x, side))
    for f, rec in equality_functions(P):
        want = ex["always"].get(f.name)
        if not want:
            continue
        c = compared_on_every_path(P, f, rec, memo)
        for x in want:
            out.count("fields_to_compare_on_every_path")
            if (0, x) not in c or (1, x) not in c:
                out.v("field-not-always-compared", f.name, loc(f, f.line),
                      "%s may find its arguments equal without having looked "
                      "at the field %s of both" % (f.name, x))
    for f, rec in duplicating_functions(P):
        want = ex["copied"].get(f.name)
        if not want:
            continue
        c = copied_on_every_path(P, f, rec, memo)
        for x in want:
            out.count("fields_to_copy_on_every_path")
            if x not in c:
                out.v("field-not-always-copied", f.name, loc(f, f.line),
                      "%s may return a copy without having copied the field "
                      "%s" % (f.name, x))
    hashes(P, out, ex, memo)
    out.floor("fields_to_copy_on_every_path", 150)
    out.floor("fields_to_compare_on_every_path", 90)
    out.floor("duplicating_functions", 55)
    out.floor("fields_to_copy", 230)
    out.floor("equality_functions", 35)
    out.floor("fields_to_compare", 90)


def miswired(P, f, rec, out):
    """dup->x = src->y with different x and y"""
    al = Alias(P, f, 0)
    D = defs_of(f)

    def src(x):
        while x and x[0] == "c":
            x = x[2]
        if x and x[0] == "m" and x[3] == rec and al.is_(x[1]):
            return x[2]
        if x and x[0] == "t" and D.get(x[1]):
            d = D[x[1]]
            if d[0] == "call" and isinstance(d[2], str) and \
                    re.search(r"_(copy|dup)$", d[2]) and len(d[3]) == 1:
                return src(d[3][0])
        return None
    for b in f.blocks.values():
        for e in b.els:
            if e[0] == "asg" and e[2][0] == "m" and e[2][3] == rec and \
                    not al.is_(e[2][1]):
                s = src(e[3])
                if s:
                    out.count("direct_field_copies")
                    if s != e[2][2]:
                        out.v("field-copied-from-other", f.name, loc(f, e[4]),
                              "the field %s is set from the field %s" %
                              (e[2][2], s))


def hashes(P, out, ex, memo):
    for f in P.fns:
        m = re.match(r"(isl_\w+?)_get_(?:full_)?hash$", f.name)
        if not m or not f.ps:
            continue
        rec = P.pointee_rec(f, f.ps[0][1])
        eqs = [g for n in ("_plain_is_equal", "_is_equal")
               for g in P.by_name.get(m.group(1) + n, [])]
        if not eqs or rec not in P.recs:
            continue
        rd = reads(P, f, 0, memo)
        eq = set()
        for g in eqs[:1]:
            eq = reads(P, g, 0, memo)
        out.count("hash_functions")
        for x in sorted(rd - eq - {"*", "ref", "ctx", "hash"}):
            if x in ex["hash"].get(rec, {}):
                continue
            out.v("hash-looks-at-more", f.name, loc(f, f.line),
                  "the hash depends on the field %s, which %s ignores" %
                  (x, eqs[0].name))
    out.floor("hash_functions", 9)


# ---------------------------------------------------------------- C26
OWN = {"give", "take", "keep", "null"}


def api(out):
    """Every public function is defined; its declarations and its definition
    agree on who owns what; functions that are to return NULL do so."""
    P = program()
    ex = load_rules("api.json")
    decls = {}
    for d in P.decls:
        decls.setdefault(d["name"], {})[(d["file"], d["line"])] = d
    for n, ds in decls.items():
        pub = any(k[0].startswith("include/isl/") for k in ds)
        if pub:
            out.count("public_functions")
            if n not in P.by_name and n not in ex["undefined"]:
                k = sorted(ds)[0]
                out.v("declared-but-not-defined", n, "%s:%d" % k,
                      "%s is declared but nowhere defined" % n)
        rows = [("%s:%d" % k, set(d["ra"]) & OWN,
                 [set(p[2]) & OWN for p in d["ps"]])
                for k, d in sorted(ds.items())]
        for f in P.by_name.get(n, []):
            if f.static and pub:
                continue
            if not f.static:
                rows.append(("%s:%d" % (f.file, f.line), set(f.ra) & OWN,
                             [set(p[2]) & OWN for p in f.ps]))
        if len(rows) < 2 or all(f.static for f in P.by_name.get(n, [])):
            continue
        out.count("functions_with_several_declarations")
        l0, r0, p0 = rows[0]
        for l, r, p in rows[1:]:
            if n in ex["annotations"]:
                continue
            if moves(r) != moves(r0) or len(p) != len(p0) or \
                    any(moves(a) != moves(b) for a, b in zip(p, p0)):
                out.v("ownership-declared-differently", n, l,
                      "%s is declared with other ownership annotations at %s" %
                      (n, l0))
                break
    null = {n for n, ds in decls.items()
            if any("null" in d["ra"] for d in ds.values())}
    null |= {f.name for f in P.fns if "null" in f.ra}
    for f in P.fns:
        if f.name not in null:
            continue
        D = defs_of(f)
        out.count("functions_returning_null")
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "ret" and e[1] is not None and \
                        not is_null(P, f, e[1], D, null):
                    out.v("free-does-not-return-null", f.name, loc(f, e[2]),
                          "%s is declared to return NULL but may return "
                          "something else" % f.name)
    out.floor("public_functions", 3000)
    out.floor("functions_with_several_declarations", 3000)
    out.floor("functions_returning_null", 60)


def moves(a):
    return a - {"keep"}


def is_null(P, f, x, D, null, depth=0):
    while x and x[0] == "c":
        x = x[2]
    if x[0] == "n":
        return True
    if x[0] == "i":
        return x[1] == 0
    if x[0] == "t" and x[1] in D:
        d = D[x[1]]
        if d[0] == "call":
            return isinstance(d[2], str) and d[2] in null
        if d[0] == "asg":
            return is_null(P, f, d[3], D, null, depth + 1)
    if x[0] == "v" and depth < 4 and x[1] >= f.np:
        vs = [e for b in f.blocks.values() for e in b.els
              if (e[0] == "asg" and e[2] == x) or
              (e[0] == "decl" and e[1] == x[1] and e[2])]
        return bool(vs) and all(
            is_null(P, f, e[3] if e[0] == "asg" else e[2], D, null, depth + 1)
            for e in vs)
    return False


# ---------------------------------------------------------------------------
# C07: positions and ranges given by the caller are checked before they are
# used to index.

INTT = {"int", "unsigned int", "isl_size", "unsigned", "long", "size_t"}
UNSIGNED = {"unsigned int", "size_t", "unsigned"}


def uncast(x):
    while x and x[0] == "c":
        x = x[2]
    return x


class Positions:
    """Which integer parameters reach an index or an offset of a pointer,
    and which comparisons every path to that use has made.

    Kinds of comparison of a value derived from parameter p:
      U  against something other than a constant: an upper bound
      S  as U, excluding the bound itself (p >= x, or p + n > x)
      L  against 0, 1 or -1: a lower bound
    """

    def __init__(self, P):
        self.P, self.INFO, self.CH, self.REQ = P, {}, {}, {}

    def info(self, f):
        k = (f.unit, f.name)
        if k in self.INFO:
            return self.INFO[k]
        r = type("R", (), {})()
        self.INFO[k] = r
        r.D = D = dict(defs_of(f))
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "phi":
                    D.setdefault(e[1], e)
        r.ints = [i for i, p in enumerate(f.ps) if f.T[p[1]][0] in INTT]
        r.tv = tv = {i: {i} for i in r.ints}

        def taint(x, depth=0):
            x = uncast(x)
            if not x:
                return frozenset()
            if x[0] == "v":
                return frozenset(tv.get(x[1], ()))
            if x[0] == "t":
                d = D.get(x[1])
                if d is None or depth > 6:
                    return frozenset()
                if d[0] in ("asg", "inc", "casg"):
                    return taint(d[3], depth + 1)
                return frozenset()
            if x[0] == "b" and x[1] in ("+", "-"):
                return taint(x[2], depth) | taint(x[3], depth)
            return frozenset()

        changed = True
        while changed:
            changed = False
            for b in f.blocks.values():
                for e in b.els:
                    lhs = rhs = None
                    if e[0] == "asg":
                        lhs, rhs = e[2], e[3]
                    elif e[0] == "decl" and e[2]:
                        lhs, rhs = ["v", e[1]], e[2]
                    elif e[0] == "casg" and e[2] in ("+=", "-=", "+", "-"):
                        lhs, rhs = e[3], e[4]
                    if not lhs or lhs[0] != "v":
                        continue
                    if f.T[f.vtype[lhs[1]]][0] not in INTT:
                        continue
                    t = taint(rhs)
                    o = tv.setdefault(lhs[1], set())
                    if not t <= o:
                        o |= t
                        changed = True
        r.taint = taint
        return r

    def callkinds(self, name, i, f):
        """The comparisons a callee makes on its argument i."""
        s = set()
        for g in self.P.targets(f, name):
            if i >= len(g.ps):
                continue
            q = self.checks(g, i)
            s |= q
            if "U" in q and g.T[g.ps[i][1]][0] in UNSIGNED:
                s.add("L")
        return s

    def condchecks(self, f, r, cond):
        res = {}
        seen, todo = set(), [cond]

        def add(p, k):
            res.setdefault(p, set()).add(k)

        while todo:
            for x in walk(todo.pop()):
                if x[0] == "b" and x[1] in ("<", ">", "<=", ">="):
                    a, b = uncast(x[2]), uncast(x[3])
                    ta, tb = r.taint(a), r.taint(b)
                    for t, m, o, ot, strict in (
                            (ta, a, b, tb, (">=", "<")),
                            (tb, b, a, ta, ("<=", ">"))):
                        for p in t:
                            if o[0] == "i" and o[1] in (0, 1, -1):
                                add(p, "L")
                            elif p in ot:
                                pass
                            else:
                                add(p, "U")
                                if x[1] in strict or m[0] == "b" or \
                                        o[0] == "b" and o[1] == "-":
                                    add(p, "S")
                                elif m[0] == "t" or m[0] == "v" and \
                                        m[1] not in r.ints:
                                    # a sum computed before
                                    if self.is_sum(f, r, m):
                                        add(p, "S")
                elif x[0] == "t" and x[1] not in seen:
                    seen.add(x[1])
                    d = r.D.get(x[1])
                    if not d:
                        continue
                    if d[0] == "call" and isinstance(d[2], str):
                        for i, a in enumerate(d[3]):
                            for p in r.taint(a):
                                for k in self.callkinds(d[2], i, f):
                                    add(p, k)
                    elif d[0] == "asg":
                        todo.append(d[3])
                    elif d[0] == "phi":
                        todo.append(d[2])
                elif x[0] == "v" and ("v", x[1]) not in seen:
                    seen.add(("v", x[1]))
                    for b in f.blocks.values():
                        for e in b.els:
                            if e[0] == "asg" and e[2] == x:
                                todo.append(e[3])
                            elif e[0] == "decl" and e[1] == x[1] and e[2]:
                                todo.append(e[2])
        return res

    def is_sum(self, f, r, m):
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "asg" and (e[2] == m or m == ["t", e[1]]) or \
                        e[0] == "decl" and ["v", e[1]] == m and e[2]:
                    rhs = uncast(e[3] if e[0] == "asg" else e[2])
                    if rhs[0] == "b" and rhs[1] in ("+", "-"):
                        return True
        return False

    def checks(self, f, p):
        k = (f.unit, f.name, p)
        if k in self.CH:
            return self.CH[k]
        self.CH[k] = set()
        r = self.info(f)
        s = set()
        if p not in r.ints:
            return s
        for b in f.blocks.values():
            if b.term and b.term[1]:
                s |= self.condchecks(f, r, b.term[1]).get(p, set())
            for e in b.els:
                if e[0] == "ret" and e[1]:
                    s |= self.condchecks(f, r, e[1]).get(p, set())
        for name, args, line, tmp, callee, b in self.P.calls(f):
            if name:
                for i, a in enumerate(args):
                    if p in r.taint(a):
                        s |= self.callkinds(name, i, f)
        self.CH[k] = s
        return s

    def requires(self, f, p):
        """The kinds of comparison missing on some path to a raw use of
        parameter p: {kind: (line, what)}."""
        k = (f.unit, f.name, p)
        if k in self.REQ:
            return self.REQ[k]
        self.REQ[k] = {}
        r = self.info(f)
        if p not in r.ints:
            return {}
        unsigned = f.T[f.ps[p][1]][0] in UNSIGNED
        need = {}
        for kind in ("U", "L", "S"):
            if kind == "L" and unsigned:
                continue
            seen, work = set(), [(f.entry, None)]
            while work and kind not in need:
                bi, val = work.pop()
                if (bi, val) in seen:
                    continue
                seen.add((bi, val))
                B = f.blocks[bi]
                use = self.use_in(f, r, B, p, kind)
                if use:
                    need[kind] = use
                    break
                cc = {}
                if B.term and B.term[1]:
                    cc = self.condchecks(f, r, B.term[1])
                if kind in cc.get(p, ()):
                    continue
                for i, s in enumerate(B.succ):
                    if s is None or s not in f.blocks:
                        continue
                    if val is not None and len(B.succ) == 2 and \
                            self.contradicts(f, B, val, i):
                        continue
                    nv = None
                    if B.term and f.blocks[s].join is not None and \
                            B.term[0] in ("&&", "||"):
                        # the value of the operator is known here
                        if (B.term[0] == "||") == (i == 0):
                            nv = int(B.term[0] == "||")
                    work.append((s, nv))
        self.REQ[k] = need
        return need

    def contradicts(self, f, B, val, i):
        """Can edge i not be taken when the operator has value val?"""
        if not B.term or not B.term[1]:
            return False
        for op, x, y in facts(f, B.term[1], i == 0):
            if uncast(x) == ["t", B.join] and y == ["i", 0] and \
                    op in ("==", "!=") and (op == "!=") != bool(val):
                return True
        return False

    def use_in(self, f, r, B, p, kind):
        def isptr(t):
            return t is not None and t >= 0 and f.T[t][1] in ("p", "a")
        line = f.line
        for e in B.els + [B.term or []]:
            if e and e[0] == "call":
                line = e[4]
            elif e and isinstance(e[-1], int) and e[-1] > 0 and \
                    e[0] in ("asg", "casg", "decl", "ret", "use"):
                line = e[-1]
            for x in walk(e):
                idx = None
                if x[0] == "x":
                    idx = x[2]
                elif x[0] == "b" and x[1] in ("+", "-") and len(x) > 4 and \
                        isptr(x[4]):
                    idx = x[3]
                if idx is not None and p in r.taint(idx):
                    return (line, "an index")
            if e and e[0] == "call" and isinstance(e[2], str):
                for i, a in enumerate(e[3]):
                    if p not in r.taint(a):
                        continue
                    for g in self.P.targets(f, e[2]):
                        if i < len(g.ps) and kind in self.requires(g, i):
                            return (e[4], g.name)
        return None


def positions(out):
    P = program()
    sys.setrecursionlimit(20000)
    A = Positions(P)
    pub = P.public()
    exc = json.load(open(os.path.join(VERIF, "rules", "positions.json")))
    what = {"U": "an upper bound", "S": "an upper bound that excludes the "
            "bound itself", "L": "a lower bound"}
    for f in P.fns:
        if f.name not in pub:
            continue
        for p in A.info(f).ints:
            out.count("integer parameters of public functions", 1)
            known = exc.get(f.name, {}).get(str(p), [[]])[0]
            for kind, (line, use) in sorted(A.requires(f, p).items()):
                if kind in known:
                    out.count("uses without a bound, as listed", 1)
                    continue
                if kind == "S" and "U" in A.requires(f, p):
                    continue
                out.v("position-unchecked", f.name, loc(f, line),
                      "parameter %d (%s) reaches %s without having been "
                      "compared to %s" % (p, f.vname[p], use, what[kind]), [])
    out.count("functions with such parameters", sum(
        1 for f in P.fns if A.info(f).ints))
    out.floor("integer parameters of public functions", 700)


def compared_on_every_path(P, f, rec, memo):
    """The fields both operands of the equality function f are asked for on
    every path on which f may answer yes: (first, second) sets."""
    als = (Alias(P, f, 0), Alias(P, f, 1))
    D = defs_of(f)
    ALL = {(s, x[0]) for s in (0, 1) for x in P.recs[rec]["fs"]}

    def read(e):
        r = set()
        for x in walk(e):
            if x[0] == "m" and x[3] == rec:
                for s in (0, 1):
                    if als[s].is_(x[1]):
                        r.add((s, x[2]))
        return r

    def step(b, s, stop=None):
        s = set(s)
        for e in b.els:
            if e is stop:
                return s | read([e])
            s |= read([e])
            if e[0] == "call":
                for i, a in enumerate(e[3]):
                    for k in (0, 1):
                        if not als[k].is_(a):
                            continue
                        for g in P.targets(f, e[2]):
                            if i < len(g.ps) and \
                                    P.pointee_rec(g, g.ps[i][1]) == rec:
                                s |= {(k, x) for x in reads(P, g, i, memo)}
            elif e[0] == "asg" and e[2][0] == "v":
                s.discard(("no", e[2][1]))
            elif e[0] == "decl":
                s.discard(("no", e[1]))
        return s | read([b.term or []])

    IN, work = {f.entry: frozenset()}, [f.entry]
    while work:
        n = work.pop()
        B = f.blocks[n]
        o = step(B, IN[n])
        for i, t in enumerate(B.succ):
            if t is None or t not in f.blocks:
                continue
            w = set(o)
            if B.term and B.term[1] and len(B.succ) == 2:
                for op, x, y in facts(f, B.term[1], i == 0, D):
                    x, y = uncast(x), uncast(y)
                    if x[0] == "v" and (
                            y[0] == "i" and y[1] <= 0 and
                            op in ("==", "<", "<=")):
                        if not (op == "<=" and y[1] > 0):
                            w.add(("no", x[1]))
                    if op == "==" and als[0].is_(x) and als[1].is_(y):
                        w |= ALL
            w = frozenset(w) if t not in IN else IN[t] & w
            if t not in IN or w != IN[t]:
                IN[t] = w
                work.append(t)
    res = set(ALL)
    for b in f.blocks.values():
        if b.id not in IN:
            continue
        for e in b.els:
            if e[0] != "ret" or not e[1]:
                continue
            s = step(b, IN[b.id], e)
            x = uncast(e[1])
            if x[0] == "i" and x[1] <= 0:
                continue
            if x[0] == "v" and ("no", x[1]) in s:
                continue
            d = D.get(x[1]) if x[0] == "t" else None
            if d and d[0] == "asg" and uncast(d[3])[0] == "v" and \
                    ("no", uncast(d[3])[1]) in s:
                continue
            res &= s
    return res


def equality_functions(P):
    for f in P.fns:
        if len(f.ps) < 2 or not settled(P, f):
            continue
        rec = P.pointee_rec(f, f.ps[0][1])
        if rec in P.recs and re.search(r"(^|_)(plain_)?is_equal$", f.name) \
                and P.pointee_rec(f, f.ps[1][1]) == rec:
            yield f, rec


def copied_on_every_path(P, f, rec, memo):
    """The fields of its argument the value of which the duplicating function
    f uses on every path on which it may return an object."""
    al = Alias(P, f, 0)
    D = defs_of(f)
    ALL = {x[0] for x in P.recs[rec]["fs"]}

    def direct(x):
        x = uncast(x)
        while x and x[0] in ("&", "x", "*"):
            x = uncast(x[1])
        if x and x[0] == "m" and x[3] == rec and al.is_(x[1]):
            return {x[2]}
        return set()

    def step(b, s, stop=None):
        s = set(s)
        for e in b.els:
            if e is stop:
                return s
            if e[0] == "call":
                for i, a in enumerate(e[3]):
                    s |= direct(a)
                    if al.is_(a):
                        for g in P.targets(f, e[2]):
                            if i < len(g.ps) and \
                                    P.pointee_rec(g, g.ps[i][1]) == rec:
                                s |= reads(P, g, i, memo)
            elif e[0] == "asg":
                s |= direct(e[3])
            elif e[0] == "decl" and e[2]:
                s |= direct(e[2])
            elif e[0] in ("casg", "phi"):
                for x in e[2:]:
                    if isinstance(x, list):
                        s |= direct(x)
        return s

    IN, work = {f.entry: frozenset()}, [f.entry]
    while work:
        n = work.pop()
        B = f.blocks[n]
        o = step(B, IN[n])
        for i, t in enumerate(B.succ):
            if t is None or t not in f.blocks:
                continue
            w = set(o)
            if B.term and B.term[1] and len(B.succ) == 2:
                for op, x, y in facts(f, B.term[1], i == 0, D):
                    x, y = uncast(x), uncast(y)
                    if op == "==" and (y[0] == "n" or y == ["i", 0]):
                        # nothing to copy, or nothing to copy it to
                        w |= direct(x)
                        if x[0] == "v":
                            w.add(("null", x[1]))
            w = frozenset(w) if t not in IN else IN[t] & w
            if t not in IN or w != IN[t]:
                IN[t] = w
                work.append(t)
    res = set(ALL)
    for b in f.blocks.values():
        if b.id not in IN:
            continue
        for e in b.els:
            if e[0] != "ret" or not e[1]:
                continue
            x = uncast(e[1])
            s = step(b, IN[b.id], e)
            if x[0] == "n" or x == ["i", 0]:
                continue
            if x[0] == "v" and ("null", x[1]) in s:
                continue
            while x and x[0] == "v":
                x = uncast(single_def(f, x[1]))
            d = D.get(x[1]) if x and x[0] == "t" else None
            if d and d[0] == "call" and isinstance(d[2], str) and \
                    d[2].endswith("_free"):
                continue
            res &= s
    return res


def duplicating_functions(P):
    for f in P.fns:
        if not f.ps or not settled(P, f):
            continue
        rec = P.pointee_rec(f, f.ps[0][1])
        if rec and rec in P.recs and re.search(r"_dup$", f.name):
            yield f, rec
