"""Properties decided by the path-sensitive ownership/nullness engine."""
import json, os, re
from common import *

CAP = 4000
FLOOR_FUNCTIONS = 7800


class Engine:
    def __init__(self):
        self.d, self.key = engine(CAP)
        self._ir = None
        if self.d["functions"] < FLOOR_FUNCTIONS:
            raise Broken("only %d functions analysed" % self.d["functions"])

    @property
    def ir(self):
        if self._ir is None:
            self._ir = IR(extract()[0])
            self.static = {f["name"] for f in self._ir.fns if f.get("static")}
        return self._ir

    def object_args(self):
        if not hasattr(self, "_args"):
            self._args = a = {}
            pub = {d["name"] for d in self.ir.decls
                   if d["file"].startswith("include/isl/")}
            for f in self.ir.fns:
                if f["name"] not in pub:
                    continue
                for p in f["ps"]:
                    if {"take", "keep"} & set(p[2]):
                        a.setdefault(f["name"], set()).add(p[0])
        return self._args

    def annotated_args(self):
        """Object arguments of the functions visible outside their file."""
        if not hasattr(self, "_ann"):
            self._ann = a = {}
            for f in self.ir.fns:
                if f.get("static"):
                    continue
                for p in f["ps"]:
                    if {"take", "keep"} & set(p[2]):
                        a.setdefault(f["name"], set()).add(p[0])
        return self._ann

    def settled(self, fn):
        if not hasattr(self, "_base"):
            self._base = set(load("functions.json"))
        self.ir
        return fn in self._base or fn not in self.static


def load(name):
    return json.load(open(os.path.join(VERIF, "rules", name)))


def kind_of(cat, what):
    """What a report of rule "cat" is about, without the parts that depend
    on the names of local variables."""
    if cat == "null-deref":
        return re.sub(r"^(result of \w+) passed to .*", r"\1", what)
    if cat in ("err-swallowed", "null-arg-success"):
        return what
    if cat in ("leak", "cow-result"):
        m = re.match(r"result of \w+|parameter '\w+'", what)
        return m[0] if m else ""
    if cat == "cow-field":
        # where the object comes from (a function, or the caller) and the
        # field that holds it
        root, _, path = what.split(": ")[0].partition("->")
        if not re.match(r"isl_\w+$", root):
            root = "*"
        path = re.sub(r"(next->)+", "next->", path)
        return root + "->" + re.sub(r"\[[^]]*\]", "[]", path)
    return ""


def excluded_by(excl, cat, fn, what=None):
    """The reason why rule "cat" is not decided for (this object of) a
    function."""
    e = excl.get(cat, {}).get(fn)
    if e is None:
        return None
    if what is not None and e.get("of") is not None and \
            kind_of(cat, what) not in e["of"]:
        return None
    return e["reason"]


def calls_of(f):
    """Names of the functions called or referred to by an IR function."""
    r = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == "f" and isinstance(x[1], str):
                r.add(x[1])
            if len(x) > 2 and x[0] == "call" and isinstance(x[2], str):
                r.add(x[2])
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y)
    walk(f.get("bs", f))
    return r


class NewHelpers:
    """Static functions that did not exist when the exclusions were made and
    that are only called from functions excluded for the same rule: the
    parts of an excluded function that were moved to a helper."""

    def __init__(self, eng):
        self.base = set(load("functions.json"))
        self.eng = eng
        self.callers = None

    def covers(self, excl, cat, fn, what):
        if fn in self.base:
            return False
        self.eng.ir
        if fn not in self.eng.static:
            return False
        if self.callers is None:
            self.callers = {}
            for f in self.eng.ir.fns:
                for c in calls_of(f):
                    self.callers.setdefault(c, set()).add(f["name"])
        seen, work = set(), [fn]
        while work:
            g = work.pop()
            if g in seen:
                continue
            seen.add(g)
            cs = self.callers.get(g, set())
            if not cs:
                return False
            for c in cs:
                if excluded_by(excl, cat, c, what):
                    continue
                if c in self.base or c not in self.eng.static:
                    return False
                work.append(c)
        return True


def written(eng):
    """Object arguments that a function may write to although other parts of
    the program may hold a reference to the same object."""
    for f in eng.d["summaries"]:
        if eng.settled(f["fn"]):
            for p in f["ps"]:
                if p[2] & 6 and p[6]:
                    yield f, p


def dereferenced(eng):
    """Object arguments that a public function accesses without a test."""
    pub = eng.object_args()
    for f in eng.d["summaries"]:
        if f["fn"] in pub:
            for p in f["ps"]:
                if p[2] & 6 and p[4]:
                    yield f, p


def known_findings(prop):
    """(category, function) pairs of the listed, unrepaired defects."""
    r = {}
    p = os.path.join(VERIF, "known-findings.json")
    for f in json.load(open(p))["findings"]:
        if f["property"] == prop:
            r[(f["rule"], f["where"])] = f
    return r


def keep(r, eng):
    return True


def decide(prop, cats, flt=None):
    eng = Engine()
    excl = load("exclusions.json")
    nh = NewHelpers(eng)
    known = known_findings(prop)
    viol, kf, und, und_fns = [], {}, 0, set()
    for r in eng.d["reports"]:
        cat, fn, file, line, what, trace = r[:6]
        if cat not in cats or (flt and not flt(r, eng)):
            continue
        if excluded_by(excl, cat, fn, what) or nh.covers(excl, cat, fn, what):
            und += 1
            und_fns.add(fn)
            continue
        if (cat, fn) in known:
            kf[(cat, fn)] = known[(cat, fn)]
            continue
        viol.append({"rule": cat, "function": fn,
                     "location": "%s:%d" % (file, line), "what": what,
                     "path": ["%s:%d" % (file, l) for l in trace]})
    extra = {}
    if "cow-param" in cats:
        inplace = load("inplace.json")
        n = 0
        for f in eng.d["summaries"]:
            n += sum(1 for p in f["ps"] if p[2] & 6)
        for f, p in written(eng):
            if p[0] in inplace.get(f["fn"], ()):
                continue
            if ("cow-param", f["fn"]) in known:
                kf[("cow-param", f["fn"])] = known[("cow-param", f["fn"])]
                continue
            viol.append({"rule": "cow-param", "function": f["fn"],
                         "location": "%s:%d" % (f["file"], p[7]),
                         "what": "writes to its argument '%s' without making "
                                 "it unique: %s" % (p[0], p[8]),
                         "path": []})
        extra["object_arguments_checked_for_in_place_writes"] = n
        extra["functions_modifying_by_design_or_not_decided"] = len(inplace)
        if n < 9000:
            raise Broken("only %d object arguments found" % n)
    if "null-param" in cats:
        accepted = load("nonnull.json")
        n = 0
        pub = eng.object_args()
        for f in eng.d["summaries"]:
            if f["fn"] in pub:
                n += sum(1 for p in f["ps"] if p[2] & 6)
        for f, p in dereferenced(eng):
            if p[0] in accepted.get(f["fn"], ()):
                continue
            if ("null-param", f["fn"]) in known:
                kf[("null-param", f["fn"])] = known[("null-param", f["fn"])]
                continue
            viol.append({"rule": "null-param", "function": f["fn"],
                         "location": "%s:%d" % (f["file"], p[5]),
                         "what": "argument '%s' is accessed on a path without "
                                 "a test for NULL" % p[0], "path": []})
        extra["public_object_arguments_checked"] = n
        extra["arguments_that_may_not_be_null"] = \
            sum(len(v) for v in accepted.values())
        if n < 4000:
            raise Broken("only %d public object arguments found" % n)
    notdec = sorted({p + ("" if e.get("of") is None or "" in e["of"]
                          else ": " + ", ".join(e["of"]))
                     for c in cats for p, e in excl.get(c, {}).items()})
    cov = {
        "functions_analysed": eng.d["functions"],
        "abstract_states": eng.d["states"],
        "transfer_steps": eng.d["steps"],
        "rules": cats,
        "path_limit_reached": eng.d["incomplete"],
        "functions_not_decided": notdec,
        "reports_in_functions_not_decided": und,
    }
    cov.update(extra)
    return viol, list(kf.values()), cov
