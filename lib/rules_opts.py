"""C24: a computation leaves the options and limits of its context alone."""
import re
from prog import program, walk, defs_of
from rules_struct import settled, uncast, loc
from rules_effects import confined

LIMITS = {"max_operations", "operations", "abort", "error", "error_msg",
          "error_file", "error_line"}
# what the user calls to change these
WRITERS = ["isl_options_set_*", "isl_ctx_set_*", "isl_ctx_reset_*",
           "isl_ctx_abort", "isl_ctx_resume", "isl_ctx_alloc*",
           "isl_ctx_next_operation", "isl_options_new*", "isl_options_free",
           "isl_options_parse", "isl_handle_error", "isl_arg*",
           "isl_ctx_parse_options"]
# these forget an error, a request or a count that is the user's business
FORGET = {"isl_ctx_reset_error", "isl_ctx_resume", "isl_ctx_reset_operations",
          "isl_ctx_abort"}
# what each of the user's functions changes in the context, or reads from it
ERROR = {"error", "error_msg", "error_file", "error_line"}
CHANGES = {
    "isl_ctx_set_max_operations": {"max_operations"},
    "isl_ctx_reset_operations": {"operations"},
    "isl_ctx_next_operation": {"operations"},
    "isl_ctx_reset_error": ERROR,
    "isl_ctx_set_full_error": ERROR,
    "isl_ctx_abort": {"abort"},
    "isl_ctx_resume": {"abort"},
}
READS = {
    "isl_ctx_get_max_operations": {"max_operations"},
    "isl_ctx_aborted": {"abort"},
    "isl_ctx_last_error": {"error"},
    "isl_ctx_last_error_msg": {"error_msg"},
    "isl_ctx_last_error_file": {"error_file"},
    "isl_ctx_last_error_line": {"error_line"},
}
SET = re.compile(r"isl_(?:options|ctx)_set_(\w+)$")
GET = re.compile(r"isl_(?:options|ctx)_get_(\w+)$")


def option(x, whole=False):
    """the option a member access refers to"""
    x = uncast(x)
    if x and x[0] == "m" and (x[3] == "isl_options" or
                              x[3] == "isl_ctx" and (x[2] in LIMITS or
                                             x[2] == "opt" and whole)):
        return x[2]
    return None


class Options:
    def __init__(self, P):
        self.P = P
        self.names = set()
        for f in P.fns:
            m = SET.match(f.name)
            if m and self.P.targets(f, "isl_options_get_" + m.group(1)):
                self.names.add(m.group(1))
        self.names.add("max_operations")

    def fields(self, g, write):
        """the options that a function reads or writes directly"""
        r = set()
        for b in g.blocks.values():
            for e in b.els:
                w = option(e[2], True) if e[0] == "asg" else option(e[3]) \
                    if e[0] in ("casg", "inc") else None
                if write:
                    if w:
                        r.add(w)
                    continue
                xs = e[3:] if e[0] == "asg" and w else e[1:]
                for x in walk(xs):
                    o = option(x)
                    if o:
                        r.add(o)
            if not write and b.term and b.term[1]:
                for x in walk(b.term[1]):
                    if option(x):
                        r.add(option(x))
        return r

    def source(self, f, x, D, depth=0):
        """the option of which x is the value"""
        x = uncast(x) if x else None
        if not x:
            return None
        if option(x, True):
            return option(x, True)
        if x[0] == "t" and depth < 4 and D.get(x[1]):
            d = D[x[1]]
            if d[0] == "asg":
                return self.source(f, d[3], D, depth + 1)
            if d[0] == "call" and isinstance(d[2], str):
                m = GET.match(d[2])
                if m and m.group(1) in self.names:
                    return m.group(1)
        return None

    def touched(self, f):
        for b in f.blocks.values():
            for e in b.els:
                if e[0] == "asg" and option(e[2], True) or \
                        e[0] in ("casg", "inc") and option(e[3]):
                    return True
                if e[0] == "call" and isinstance(e[2], str):
                    m = SET.match(e[2])
                    if m and m.group(1) in self.names:
                        return True
        return False

    def unrestored(self, f):
        """(option, line of the change) that may reach a return"""
        D = defs_of(f)

        def step(n, state):
            dirty, saved = dict(state[0]), dict(state[1])
            for e in f.blocks[n].els:
                v = o = None
                if e[0] == "asg" and e[2][0] == "v":
                    v, x = e[2][1], e[3]
                elif e[0] == "decl":
                    v, x = e[1], e[2]
                elif e[0] == "asg" and option(e[2], True):
                    o, x, line = option(e[2], True), e[3], e[4]
                elif e[0] in ("casg", "inc") and option(e[3]):
                    o, x, line = option(e[3]), None, f.line
                elif e[0] == "call" and isinstance(e[2], str):
                    m = SET.match(e[2])
                    if m and m.group(1) in self.names and len(e[3]) > 1:
                        o, x, line = m.group(1), e[3][1], e[4]
                if v is not None:
                    saved.pop(v, None)
                    s = self.source(f, x, D)
                    if s and s not in dirty:
                        saved[v] = s
                    y = uncast(x) if x else None
                    if y and y[0] == "v" and y[1] in saved:
                        saved[v] = saved[y[1]]
                if o:
                    x = uncast(x) if x else None
                    if x and x[0] == "t" and D.get(x[1]) and \
                            D[x[1]][0] == "asg":
                        x = uncast(D[x[1]][3])
                    if x and x[0] == "v" and saved.get(x[1]) == o:
                        dirty.pop(o, None)
                    else:
                        dirty[o] = line
                if e[0] == "ret":
                    for o, line in dirty.items():
                        bad.setdefault(o, line)
            return dirty, saved

        bad = {}
        IN, work = {f.entry: ({}, {})}, [f.entry]
        while work:
            n = work.pop()
            d, s = step(n, IN[n])
            if n == f.exit:
                for o, line in d.items():
                    bad.setdefault(o, line)
            if f.blocks[n].noret:
                continue
            for t in f.blocks[n].succ:
                if t is None or t not in f.blocks:
                    continue
                if t in IN:
                    m = (dict(d, **IN[t][0]),
                         {v: o for v, o in IN[t][1].items()
                          if s.get(v) == o})
                    if m == IN[t]:
                        continue
                    IN[t] = m
                else:
                    IN[t] = (d, s)
                work.append(t)
        return sorted(bad.items())


def options(out):
    P = program()
    O = Options(P)
    pairs = 0
    for f in P.fns:
        m = SET.match(f.name)
        if m and f.name.startswith("isl_options_") and m.group(1) in O.names:
            for g in P.targets(f, "isl_options_get_" + m.group(1))[:1]:
                w, r = O.fields(f, True), O.fields(g, False)
                if w and r:
                    pairs += 1
                if w != r:
                    out.v("option-accessors-disagree", f.name, loc(f, f.line),
                          "%s sets %s, but %s reads %s" %
                          (f.name, ", ".join(sorted(w)) or "nothing", g.name,
                           ", ".join(sorted(r)) or "nothing"))
        for write, table in ((True, CHANGES), (False, READS)):
            want = table.get(f.name)
            if want is None or not f.file.endswith("isl_ctx.c"):
                continue
            found = O.fields(f, write)
            if not write:
                found -= {"opt"}
            if found:
                pairs += 1
            if found and found != want:
                out.v("option-accessors-disagree", f.name, loc(f, f.line),
                      "%s %s the fields %s of the context instead of %s" %
                      (f.name, "changes" if write else "reads",
                       ", ".join(sorted(found)), ", ".join(sorted(want))))
        out.count("functions")
        if not settled(P, f) or confined(P, f, WRITERS) or \
                f.file.endswith("isl_options.c"):
            continue
        for name, args, line, t, callee, b in P.calls(f):
            if name in FORGET:
                out.v("error-state-forgotten", f.name, loc(f, line),
                      "calls %s, which is for the user to decide" % name)
        for x in O.fields(f, True):
            if x in LIMITS and x != "max_operations":
                out.v("error-state-forgotten", f.name, loc(f, f.line),
                      "changes the field %s of the context" % x)
        if O.touched(f):
            out.count("functions that change an option for a while")
            for o, line in O.unrestored(f):
                if o in LIMITS and o != "max_operations":
                    continue
                out.v("option-not-restored", f.name, loc(f, line),
                      "the option %s is changed here, and not given its old "
                      "value back on every path to a return" % o)
    out.count("options with accessors that agree", pairs)
    out.floor("options with accessors that agree", 25)
    out.floor("functions", 5000)
