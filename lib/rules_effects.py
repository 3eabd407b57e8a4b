"""Effect confinement: which functions may terminate the process, print,
allocate outside the context, consult the environment, or touch state that
is shared by all contexts."""
import fnmatch
from prog import *


class Out:
    """Collects what one property's rules analysed and found."""

    def __init__(self, prop):
        self.prop = prop
        self.viol = []
        self.cov = {}
        from rules_engine import known_findings
        self.known = known_findings(prop)
        self.hit = {}

    def v(self, rule, where, loc, what, path=None):
        if (rule, where) in self.known:
            self.hit[(rule, where)] = self.known[(rule, where)]
            return
        self.viol.append({"rule": rule, "function": where, "location": loc,
                          "what": what, "path": path or []})

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def floor(self, k, n):
        if self.cov.get(k, 0) < n:
            raise Broken("only %d %s (expected at least %d)" %
                         (self.cov.get(k, 0), k, n))

    def result(self):
        return self.viol, list(self.hit.values()), self.cov


def confined(P, f, allowed, memo=None, stack=None):
    """May f have the effect?  Yes if it is listed, or if it is a static
    function only reachable from listed functions (including: not at all)."""
    if any(fnmatch.fnmatchcase(f.name, a) for a in allowed):
        return True
    if not f.static:
        return False
    stack = stack or set()
    if f.name in stack:
        return True
    for g in P.callers().get(f.name, []):
        if g is None:
            return False
        if g.name == f.name:
            continue
        if not confined(P, g, allowed, memo, stack | {f.name}):
            return False
    return True


EXIT = {"exit", "_exit", "_Exit", "quick_exit", "abort", "__assert_fail",
        "raise", "kill", "longjmp", "siglongjmp", "__assert",
        "__assert_perror_fail", "__builtin_trap", "__builtin_abort",
        "pthread_exit", "thrd_exit", "execv", "execvp", "execl", "fork",
        "system", "signal", "sigaction"}
OUT = {"printf", "fprintf", "vprintf", "vfprintf", "putchar", "puts", "fputs",
       "fputc", "putc", "fwrite", "write", "perror", "fopen", "freopen",
       "tmpfile", "remove", "rename", "unlink", "dprintf", "open", "creat",
       "fwrite_unlocked", "__builtin_printf", "__builtin_fprintf",
       "__builtin_puts", "__builtin_putchar"}
ENV = {"rand", "random", "srand", "srandom", "drand48", "rand_r", "lrand48",
       "mrand48", "time", "clock", "gettimeofday", "clock_gettime", "ctime",
       "localtime", "gmtime", "getrusage", "times", "getenv",
       "secure_getenv", "setenv", "putenv", "setlocale", "getpid",
       "getppid", "gethostname", "getuid", "getcwd", "isatty", "getrandom",
       "arc4random", "sysconf", "sleep", "usleep", "nanosleep",
       "pthread_self", "gettid", "thrd_current"}
ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "reallocarray",
         "aligned_alloc", "posix_memalign", "memalign", "valloc", "alloca",
         "__builtin_alloca", "asprintf", "vasprintf", "getline",
         "__builtin_malloc", "__builtin_calloc"}

# functions that modify state of the process that is not an argument
HIDDEN = {"strtok", "setlocale", "srand", "srandom", "srand48", "rand",
          "random", "drand48", "setenv", "putenv", "unsetenv", "umask",
          "chdir", "signal", "sigaction", "atexit", "on_exit", "tmpnam",
          "asctime", "ctime", "gmtime", "localtime", "strerror", "getenv_r",
          "hcreate", "hsearch", "hdestroy", "mp_set_memory_functions",
          "__gmp_set_memory_functions", "setrlimit", "alarm", "setitimer",
          "fesetround", "mallopt", "bindtextdomain", "textdomain", "basename",
          "dirname", "ecvt", "fcvt", "gamma", "lgamma", "getopt",
          "getopt_long", "nftw", "feclearexcept", "feenableexcept"}
# the error handler is the one place that terminates, and only on request
EXIT_OK = ["isl_handle_error", "isl_stream_error", "isl_arg*",
           "isl_args_parse", "isl_*_args_parse", "isl_*_parse",
           "isl_fold_type_negate"]
ARG_FILE = "isl_arg.c"
OUT_OK = ["isl_handle_error", "isl_stream_error", "*_dump", "*_print_internal",
          "isl_printer_*", "print_version", "print_stats", "isl_ctx_free",
          "isl_options_print_version"]
FILE_OPS = ["file_*"]
ALLOC_OK = ["isl_malloc_or_die", "isl_calloc_or_die", "isl_realloc_or_die",
            "isl_ctx_alloc_with_options", "isl_options_new_with_defaults",
            "isl_sort"]


def calls_any(P, f, names):
    r = [(n, l) for n, a, l, t, c, b in P.calls(f) if n in names]
    called = {n for n, l in r}
    for x in P.refs(f):
        if x in names and x not in called:
            r.append((x, f.line))
    return r


def must(f, stmt, edge):
    """Forward must-analysis: stmt(e) and edge(block, i) give what holds from
    there on.  Yields (block, statement, what holds before it)."""
    IN, work = {f.entry: frozenset()}, [f.entry]
    while work:
        n = work.pop()
        B = f.blocks[n]
        o = set(IN[n])
        for e in B.els:
            o |= stmt(e)
        for i, t in enumerate(B.succ):
            if t is None or t not in f.blocks:
                continue
            w = o | edge(B, i)
            w = frozenset(w) if t not in IN else IN[t] & w
            if t not in IN or w != IN[t]:
                IN[t] = w
                work.append(t)
    for b in f.blocks.values():
        if b.id not in IN:
            continue
        o = set(IN[b.id])
        for e in b.els:
            yield b, e, frozenset(o)
            o |= stmt(e)


def strip(x):
    while x and x[0] == "c":
        x = x[2]
    return x


def field_of(f, x, D):
    """the name of the field x was read from"""
    x = strip(x)
    if x and x[0] == "v" and x[1] >= f.np:
        x = strip(single_def(f, x[1]))
    if x and x[0] == "t" and x[1] in D and D[x[1]][0] == "asg":
        x = strip(D[x[1]][3])
    if x and x[0] == "m":
        return x[2]
    if x and x[0] == "t" and x[1] in D and D[x[1]][0] == "call" and \
            isinstance(D[x[1]][2], str):
        return D[x[1]][2]
    return None


def branch_facts(f, B, i, D):
    if not B.term or not B.term[1]:
        return []
    if B.term[0] == "switch":
        l = f.blocks[B.succ[i]].label if B.succ[i] in f.blocks else None
        if l and l[0] == "case" and len(l) == 2:
            return [("==", B.term[1], ["i", l[1]])]
        return []
    if len(B.succ) != 2:
        return []
    return facts(f, B.term[1], i == 0, D)


WARN, CONTINUE, ABORT = 0, 1, 2


def error_modes(P, f):
    """(block, statement, possible values of the on_error option)"""
    D = defs_of(f)
    full = frozenset((WARN, CONTINUE, ABORT))

    def mode(x):
        return field_of(f, x, D) in ("on_error", "isl_options_get_on_error")

    IN, work = {f.entry: full}, [f.entry]
    while work:
        n = work.pop()
        B = f.blocks[n]
        sw = B.term and B.term[0] == "switch" and B.term[1] and \
            mode(B.term[1])
        cases = {f.blocks[t].label[1] for t in B.succ
                 if t in f.blocks and f.blocks[t].label and
                 f.blocks[t].label[0] == "case"} if sw else set()
        for i, t in enumerate(B.succ):
            if t is None or t not in f.blocks:
                continue
            w = IN[n]
            l = f.blocks[t].label
            if sw and not (l and l[0] == "case"):
                w = w - cases
            for op, x, y in branch_facts(f, B, i, D):
                y = strip(y)
                if not mode(x) or y[0] != "i":
                    continue
                k = y[1]
                w = frozenset(v for v in w if {
                    "==": v == k, "!=": v != k, "<": v < k, "<=": v <= k,
                    ">": v > k, ">=": v >= k}[op])
            if not w:
                continue
            if t not in IN or not w <= IN[t]:
                IN[t] = w | IN.get(t, frozenset())
                work.append(t)
    for b in f.blocks.values():
        for e in b.els:
            yield b, e, IN.get(b.id, frozenset())


def error_handlers(out, P):
    """Terminating and printing is the choice of the user, and the error is
    recorded in every case."""
    for nm in ("isl_handle_error", "isl_stream_error"):
        for f in P.by_name.get(nm, []):
            D = defs_of(f)
            for b, e, modes in error_modes(P, f):
                if e[0] != "call" or not isinstance(e[2], str):
                    continue
                if e[2] in EXIT:
                    out.count("terminating_calls_and_modes")
                    if not modes <= {ABORT}:
                        out.v("terminates", nm, "%s:%d" % (f.file, e[4]),
                              "%s calls %s although the user did not ask for "
                              "it" % (nm, e[2]))
                elif e[2] in OUT:
                    out.count("printing_calls_and_modes")
                    if CONTINUE in modes:
                        out.v("prints", nm, "%s:%d" % (f.file, e[4]),
                              "%s calls %s although the user asked for "
                              "silence" % (nm, e[2]))

            def stmt(e):
                if e[0] == "call" and isinstance(e[2], str) and \
                        e[2] in ("isl_ctx_set_full_error",
                                 "isl_ctx_set_error"):
                    return {"set"}
                if e[0] == "asg" and e[2][0] == "m" and e[2][2] == "error" \
                        and e[2][3] == "isl_ctx":
                    return {"set"}
                return set()

            def edge(B, i):
                for op, x, y in branch_facts(f, B, i, D):
                    if op == "==" and strip(x) == ["v", 0] and \
                            strip(y)[0] in ("i", "n"):
                        return {"set"}
                return set()
            for b, s in at_exit(f, stmt, edge):
                out.count("error_handler_exits")
                if "set" not in s:
                    out.v("error-not-recorded", nm, "%s:%d" %
                          (f.file, f.line),
                          "%s may return without recording the error" % nm)
                    break
    out.floor("terminating_calls_and_modes", 2)
    out.floor("printing_calls_and_modes", 5)


def at_exit(f, stmt, edge):
    """what holds at the end of each block that leaves the function"""
    IN = {f.entry: frozenset()}
    work = [f.entry]
    while work:
        n = work.pop()
        B = f.blocks[n]
        o = set(IN[n])
        for e in B.els:
            o |= stmt(e)
        for i, t in enumerate(B.succ):
            if t is None or t not in f.blocks:
                continue
            w = o | edge(B, i)
            w = frozenset(w) if t not in IN else IN[t] & w
            if t not in IN or w != IN[t]:
                IN[t] = w
                work.append(t)
    if f.exit in IN:
        yield f.exit, IN[f.exit]


def exits(out):
    """C12: only the error handler terminates; only printers print."""
    P = program()
    for f in P.fns:
        out.count("functions_analysed")
        for n, l in calls_any(P, f, EXIT):
            out.count("terminating_calls_examined")
            ok = confined(P, f, EXIT_OK) or f.file == ARG_FILE
            if not ok:
                out.v("terminates", f.name, "%s:%d" % (f.file, l),
                      "the library function %s calls %s" % (f.name, n))
        for n, l in calls_any(P, f, OUT):
            out.count("output_calls_examined")
            if f.file == ARG_FILE or confined(P, f, OUT_OK + FILE_OPS):
                continue
            out.v("prints", f.name, "%s:%d" % (f.file, l),
                  "the library function %s calls %s" % (f.name, n))
        # the standard streams
        for b in f.blocks.values():
            for x in walk(b.els + [b.term]):
                if x[0] == "g" and x[1] in ("stdout", "stderr", "stdin"):
                    out.count("standard_stream_uses_examined")
                    if f.file == ARG_FILE or confined(
                            P, f, [a for a in OUT_OK
                                   if a != "isl_printer_*"]):
                        continue
                    out.v("prints", f.name, "%s:%d" % (f.file, f.line),
                          "the library function %s uses %s" %
                          (f.name, x[1]))
        # dump functions print to stderr: only dump functions may call them
        for n, a, l, t, c, b in P.calls(f):
            if n and (n.endswith("_dump") or
                      n.endswith("_print_internal")) and n in P.by_name:
                out.count("dump_calls_examined")
                if not confined(P, f, ["*_dump", "*_print_internal"]):
                    out.v("prints", f.name, "%s:%d" % (f.file, l),
                          "%s calls the debugging function %s" % (f.name, n))
    error_handlers(out, P)
    out.floor("terminating_calls_examined", 5)
    out.floor("output_calls_examined", 30)
    out.floor("functions_analysed", 7800)


def allocs(out):
    """C11: all memory is obtained through the accounted allocators."""
    P = program()
    for f in P.fns:
        out.count("functions_analysed")
        for n, l in calls_any(P, f, ALLOC):
            out.count("allocation_calls_examined")
            if n == "strdup" or f.file == ARG_FILE:
                continue
            if not confined(P, f, ALLOC_OK):
                out.v("unaccounted-allocation", f.name,
                      "%s:%d" % (f.file, l),
                      "%s calls %s directly" % (f.name, n))
        for n, a, l, t, c, b in P.calls(f):
            if n in ("isl_malloc_or_die", "isl_calloc_or_die",
                     "isl_realloc_or_die"):
                out.count("accounted_allocations")
    charging(out, P)
    # the accounted allocators themselves charge an operation first
    for nm in ("isl_malloc_or_die", "isl_calloc_or_die",
               "isl_realloc_or_die"):
        f = P.by_name[nm][0]
        raw = [(b, i) for b in f.blocks.values()
               for i, e in enumerate(b.els)
               if e[0] == "call" and e[2] in ALLOC]
        chk = reach(P, f.name, "isl_ctx_next_operation")
        out.count("allocators_checked")
        if not raw or not chk:
            out.v("unaccounted-allocation", nm, "%s:%d" % (f.file, f.line),
                  "%s does not charge the operation counter" % nm)
    out.floor("accounted_allocations", 250)


CHARGE = "isl_ctx_next_operation"


def charging(out, P):
    """An operation is only granted after the abort flag and the quota were
    found to allow it, and is counted; whoever asks for one respects the
    answer."""
    for f in P.by_name.get(CHARGE, []):
        D = defs_of(f)

        def stmt(e):
            lv = e[2] if e[0] == "asg" else e[3] \
                if e[0] in ("inc", "casg") else None
            if lv and lv[0] == "m" and lv[2] == "operations":
                if e[0] == "inc" and e[2] in ("++", "p++", "++p") or \
                        e[0] != "inc":
                    return {"counted"}
            return set()

        def edge(B, i):
            r = set()
            for op, x, y in branch_facts(f, B, i, D):
                a, b = field_of(f, x, D), field_of(f, y, D)
                y = strip(y)
                zero = y[0] in ("i", "n") and (y[0] == "n" or y[1] == 0)
                if a == "abort" and op == "==" and zero:
                    r.add("abort")
                if a == "max_operations" and op in ("==", "<=") and zero or \
                        a == "operations" and op in ("<", "!=") and \
                        b == "max_operations":
                    r.add("quota")
            return r
        for b, e, s in must(f, stmt, edge):
            if e[0] != "ret" or not e[1]:
                continue
            x = strip(e[1])
            if x[0] == "i" and x[1] < 0 or x[0] == "u" and x[1] == "-":
                continue
            out.count("grants_examined")
            for k, w in (("counted", "without counting the operation"),
                         ("abort", "although an abort was requested"),
                         ("quota", "although the quota may be exceeded")):
                if k not in s:
                    out.v("operation-granted", f.name, "%s:%d" %
                          (f.file, e[2]), "%s may grant an operation %s" %
                          (f.name, w))
    for nm in ("isl_malloc_or_die", "isl_calloc_or_die",
               "isl_realloc_or_die", "isl_tab_pivot"):
        for f in P.by_name.get(nm, []):
            D = defs_of(f)

            def edge(B, i):
                for op, x, y in branch_facts(f, B, i, D):
                    y = strip(y)
                    if field_of(f, x, D) == CHARGE and y[0] == "i" and (
                            op == ">=" and y[1] == 0 or
                            op == "==" and y[1] == 0 or
                            op == ">" and y[1] == -1 or
                            op == "!=" and y[1] == -1):
                        return {"granted"}
                return set()

            for b, e, s in must(f, lambda e: set(), edge):
                if nm != "isl_tab_pivot" and e[0] == "call" and \
                        isinstance(e[2], str) and e[2] in ALLOC or nm == "isl_tab_pivot" and \
                        e[0] in ("asg", "inc", "casg") and \
                        root(e[2] if e[0] == "asg" else e[3])[1]:
                    out.count("charged_points_examined")
                    if "granted" not in s:
                        out.v("not-charged", nm, "%s:%d" % (f.file, e[4]),
                              "%s does its work on a path on which no "
                              "operation was granted" % nm)
                        break
    out.floor("grants_examined", 1)
    out.floor("charged_points_examined", 5)


def reach(P, src, dst):
    seen, w = set(), [src]
    while w:
        n = w.pop()
        if n == dst:
            return True
        if n in seen:
            continue
        seen.add(n)
        for g in P.by_name.get(n, []):
            w.extend(P.refs(g))
    return False


# the addresses of identifiers and of tuples are part of their identity
ADDRESS_OK = set()


def is_pointer(P, f, x):
    """Is the value of x an address?"""
    k = x[0]
    if k == "v":
        return P.ty(f, f.vtype.get(x[1], -1))[1] == "p"
    if k == "m":
        return P.ty(f, x[5])[1] in "pa"
    if k == "x":
        return P.ty(f, x[3])[1] in "pa"
    if k == "c":
        return P.ty(f, x[1])[1] == "p" and is_pointer(P, f, x[2])
    return k == "&"


def holds_pointers(P, f, x):
    """Does the memory x points to contain addresses?"""
    while x and x[0] == "c":
        x = x[2]
    if not x:
        return False
    if x[0] == "&":
        if is_pointer(P, f, x[1]) and x[1][0] != "&":
            return True
        y = x[1]
        t = f.vtype.get(y[1], -1) if y[0] == "v" else \
            y[5] if y[0] == "m" else y[3] if y[0] == "x" else -1
    elif x[0] in "vmx":
        t = f.vtype.get(x[1], -1) if x[0] == "v" else x[5] if x[0] == "m" \
            else x[3]
        if P.ty(f, t)[1] not in "pa":
            return False
        t = P.ty(f, t)[3]
        if P.ty(f, t)[1] == "p":
            return True
    else:
        return False
    e = P.ty(f, t)
    if e[1] != "r":
        return False
    r = P.recs.get(e[2]) or P.recs.get(e[0].replace("struct ", ""))
    return bool(r) and any(
        P.types[r["unit"]][fl[1]][1] == "p" for fl in r["fs"])


def environment(out):
    """C13: nothing outside the inputs, options and error handling is
    consulted."""
    P = program()
    for f in P.fns:
        out.count("functions_analysed")
        for n, a, l, t, c, b in P.calls(f):
            out.count("calls_examined")
        for n, l in calls_any(P, f, ENV):
            out.v("environment", f.name, "%s:%d" % (f.file, l),
                  "the result of %s can depend on %s" % (f.name, n))
        for b in f.blocks.values():
            for x in walk(b.els + [b.term]):
                if x[0] == "b" and x[1] in ("<", ">", "<=", ">=") and \
                   P.ty(f, x[4])[1] == "p":
                    out.count("address_comparisons_examined")
                    rec = P.pointee_rec(f, x[4])
                    e = P.ty(f, P.ty(f, x[4])[3])
                    obj = e[1] == "v" or (rec in P.recs and any(
                        fl[0] == "ref" for fl in P.recs[rec]["fs"]))
                    if obj and ["n"] not in (x[2], x[3]) and\
                       not any(y[0] == "i" for y in x[2:4]) and \
                       not confined(P, f, ["isl_id_cmp", "isl_sort"]):
                        out.v("address-order", f.name, "%s:%d" %
                              (f.file, f.line), "%s orders objects by their "
                              "addresses" % f.name)
                if x[0] == "c" and P.ty(f, x[1])[1] == "i":
                    out.count("conversions_to_integers_examined")
                    if is_pointer(P, f, x[2]) and \
                       f.name not in ADDRESS_OK:
                        out.v("address-value", f.name, "%s:%d" %
                              (f.file, f.line), "%s converts an address to a "
                              "number" % f.name)
        for n, a, l, t, c, b in P.calls(f):
            if n in ("memcmp", "__builtin_memcmp", "bcmp", "strncmp"):
                out.count("memory_comparisons_examined")
                if holds_pointers(P, f, a[0]):
                    out.v("address-order", f.name, "%s:%d" % (f.file, l),
                          "%s compares memory that contains addresses" %
                          f.name)
            if f.name != "isl_printer_print_id" and \
               n in ("snprintf", "sprintf", "fprintf", "isl_printer_print_str",
                     "printf", "vsnprintf"):
                for x in walk(a):
                    if x[0] == "s" and "%p" in x[1]:
                        out.v("address-value", f.name, "%s:%d" % (f.file, l),
                              "%s prints an address" % f.name)
            if n != "isl_hash_mem" or len(a) != 3:
                continue
            out.count("hashed_values_examined")
            if a[1][0] == "&" and a[1][1][0] == "v" and \
               P.ty(f, f.vtype[a[1][1][1]])[1] == "p" or \
               a[1][0] == "&" and a[1][1][0] == "m" and \
               P.ty(f, a[1][1][5])[1] == "p":
                if not confined(P, f, ["isl_id_*", "id_*", "graph_*",
                                       "isl_sched_*", "isl_scc_*"]):
                    out.v("address-value", f.name, "%s:%d" % (f.file, l),
                          "%s hashes an address" % f.name)
    out.floor("calls_examined", 40000)


# ---- shared mutable state -------------------------------------------------

def written_params(P):
    """(function, parameter index) whose pointee the function writes, by a
    flow-insensitive fixpoint with local aliases."""
    W = {}
    edges = {}      # (callee, i) -> [(caller, j)]
    for f in P.fns:
        al = aliases(P, f)
        mine = W.setdefault(f.name, set())
        for b, e in P.stmts(f):
            if e[0] in ("asg", "casg"):
                lv = e[2] if e[0] == "asg" else e[3]
            elif e[0] == "inc":
                lv = e[3]
            else:
                lv = None
            if lv is not None:
                r, thru = root(lv)
                if thru and r[0] == "v":
                    mine |= al.get(r[1], set())
            if e[0] == "call":
                nm = e[2] if isinstance(e[2], str) else None
                for i, a in enumerate(e[3]):
                    r, thru = root(a)
                    if r[0] != "v":
                        continue
                    for p in al.get(r[1], ()):
                        if nm in P.by_name:
                            edges.setdefault((nm, i), []).append((f.name, p))
                        elif nm in LIBC_WRITES and i in LIBC_WRITES[nm]:
                            mine.add(p)
                        elif nm and nm.startswith("__gmpz") and i == 0 and \
                                not nm.startswith(GMP_READS):
                            mine.add(p)
    work = [(f, p) for f, s in W.items() for p in s]
    while work:
        k = work.pop()
        for f, p in edges.get(k, ()):
            if p not in W[f]:
                W[f].add(p)
                work.append((f, p))
    return W


GMP_READS = ("__gmpz_cmp", "__gmpz_get", "__gmpz_fits", "__gmpz_sizeinbase",
             "__gmpz_divisible", "__gmpz_export")
LIBC_WRITES = {"memcpy": [0], "memset": [0], "memmove": [0], "strcpy": [0],
               "strncpy": [0], "strcat": [0], "sprintf": [0], "snprintf": [0],
               "qsort": [0], "free": [0], "realloc": [0], "vsnprintf": [0],
               "__builtin_memcpy": [0], "__builtin_memset": [0],
               "__builtin___memcpy_chk": [0], "isl_sort": [0]}


def aliases(P, f):
    """variable -> parameters it may point into"""
    al = {i: {i} for i in range(f.np)}
    ch = True
    while ch:
        ch = False
        for b, e in P.stmts(f):
            if e[0] == "asg" and e[2][0] == "v":
                d, s = e[2][1], e[3]
            elif e[0] == "decl" and e[2]:
                d, s = e[1], e[2]
            else:
                continue
            if P.ty(f, f.vtype.get(d, -1))[1] != "p":
                continue
            r, thru = root(s)
            if r[0] == "v" and al.get(r[1]):
                if not al[r[1]] <= al.setdefault(d, set()):
                    al[d] |= al[r[1]]
                    ch = True
    return al


# reference counted constants: copies and releases do not touch them, which
# is checked separately (constant_objects)
BENIGN_GLOBALS = {"isl_id_none": "isl_id"}


def unguarded(f, target, good_edge):
    """Can block "target" be reached without taking a good edge?"""
    seen, w = set(), [f.entry]
    while w:
        b = w.pop()
        if b in seen or b not in f.blocks:
            continue
        seen.add(b)
        if b == target:
            return True
        B = f.blocks[b]
        for i, s in enumerate(B.succ):
            if s >= 0 and not (B.term and len(B.succ) == 2 and B.term[1] and
                               good_edge(B, i)):
                w.append(s)
    return False


def constant_objects(out, P):
    """The counter of a statically allocated object is never changed."""
    for glob_, rec in BENIGN_GLOBALS.items():
        for f in P.fns:
            for b, e in P.stmts(f):
                if e[0] not in ("asg", "casg", "inc"):
                    continue
                lv = e[2] if e[0] == "asg" else e[3]
                if not (lv[0] == "m" and lv[3] == rec and
                        lv[2] == "ref"):
                    continue
                out.count("constant_object_writes_examined")
                base = root(lv)[0]
                if fresh(P, f, base):
                    continue

                def good(B, i):
                    c = B.term[1]
                    for op, x, y in facts(f, c, i == 0):
                        if op in (">=", ">") and x[0] == "m" and \
                           x[2] == "ref" and x[3] == rec and \
                           y[0] == "i" and y[1] >= 0:
                            return True
                    return False
                if unguarded(f, b.id, good):
                    out.v("constant-object", f.name, "%s:%d" %
                          (f.file, f.line), "%s can modify the constant "
                          "object %s" % (f.name, glob_))
    out.floor("constant_object_writes_examined", 2)


def fresh(P, f, v):
    """Does variable v only hold newly allocated memory?"""
    if v[0] != "v" or v[1] < f.np:
        return False
    d = defs_of(f)
    n = 0
    for b, e in P.stmts(f):
        if e[0] == "asg" and e[2] == v:
            s = e[3]
        elif e[0] == "decl" and e[1] == v[1] and e[2]:
            s = e[2]
        else:
            continue
        n += 1
        while s[0] == "c":
            s = s[2]
        if s[0] == "n":
            continue
        c = d.get(s[1]) if s[0] == "t" else None
        if not c or c[0] != "call" or not isinstance(c[2], str):
            return False
        if not (c[2] in ALLOC or c[2].endswith("_or_die") or
                "alloc" in c[2]):
            return False
    return n > 0


def globals_(out):
    """C10: no variable with static storage is ever modified."""
    P = program()
    W = written_params(P)
    defs = {}
    for g in P.gvs:
        if not g["def"]:
            continue
        if g["file"].endswith(".c") or g["file"].endswith(".h"):
            defs[g["name"]] = g
            out.count("static_variables_analysed"
                      if not g["const"] else "constant_variables")
    names = {g["name"] for g in P.gvs}
    for f in P.fns:
        # locals that may point to a global
        loc = {}
        ch = True
        while ch:
            ch = False
            for b, e in P.stmts(f):
                if e[0] == "asg" and e[2][0] == "v":
                    d, s = e[2][1], e[3]
                elif e[0] == "decl" and e[2]:
                    d, s = e[1], e[2]
                else:
                    continue
                if P.ty(f, f.vtype.get(d, -1))[1] != "p":
                    continue
                r, thru = root(s)
                g = None
                if r[0] == "g":
                    g = {r[1]}
                elif r[0] == "v":
                    g = loc.get(r[1])
                if g and not g <= loc.setdefault(d, set()):
                    loc[d] |= g
                    ch = True

        def gl(x):
            r, thru = root(x)
            if r[0] == "g" and r[1] in names:
                return {r[1]}, True
            if r[0] == "v" and thru:
                return loc.get(r[1], set()), False
            return set(), False
        for b, e in P.stmts(f):
            if e[0] in ("asg", "casg", "inc"):
                lv = e[2] if e[0] == "asg" else e[3]
                for g in gl(lv)[0]:
                    out.count("writes_found")
                    out.v("global-write", g, "%s:%d" %
                          (f.file, e[4] if e[0] == "inc" else
                           e[5] if e[0] == "casg" else e[4]),
                          "%s modifies the variable %s, which is shared by "
                          "all contexts" % (f.name, g))
            elif e[0] == "call":
                nm = e[2] if isinstance(e[2], str) else None
                for i, a in enumerate(e[3]):
                    r, thru = root(a)
                    gs = {r[1]} if r[0] == "g" and r[1] in names else \
                        loc.get(r[1], set()) if r[0] == "v" else set()
                    if r[0] == "g" and a is r and \
                       P.ty(f, r[2])[1] not in ("a", "p"):
                        continue    # passed by value
                    for g in gs:
                        if g in BENIGN_GLOBALS:
                            continue
                        out.count("global_arguments_examined")
                        w = i in W.get(nm, ()) if nm in P.by_name else \
                            nm in LIBC_WRITES and i in LIBC_WRITES[nm]
                        if w:
                            out.v("global-write", g, "%s:%d" %
                                  (f.file, e[4]), "%s passes %s to %s, which "
                                  "modifies it" % (f.name, g, nm))
    for f in P.fns:
        for n, l in calls_any(P, f, HIDDEN):
            out.v("global-write", n, "%s:%d" % (f.file, l),
                  "%s calls %s, which modifies state that is shared by all "
                  "contexts" % (f.name, n))
    constant_objects(out, P)
    out.count("functions_analysed", len(P.fns))
    out.floor("static_variables_analysed", 20)
