"""Shared machinery: build the tools, extract the IR of /repo, run the engine."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys
import tempfile, time
import inline
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = os.path.join(VERIF, "tool")
CONFIG = os.path.join(VERIF, "config")
LLVM = "/usr/lib/llvm-18"


class Broken(Exception):
    """The analysis itself could not be carried out."""


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    return r.returncode, r.stdout


def locked(f):
    def g(*a):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(*a)
    return g


@locked
def build_tools():
    """Compile the extractor and the engine if needed; return their paths."""
    srcs = [os.path.join(TOOL, f) for f in
            ("extract.cc", "ir.cc", "ir.h", "engine.cc")]
    key = sha(srcs)
    d = os.path.join(BUILD, "tools-" + key)
    ex, en = os.path.join(d, "extract"), os.path.join(d, "engine")
    if os.path.exists(ex) and os.path.exists(en):
        return ex, en
    for old in glob.glob(os.path.join(BUILD, "tools-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    rc, out = run([os.path.join(LLVM, "bin/llvm-config"), "--cxxflags"])
    if rc:
        rc, out = run(["llvm-config-18", "--cxxflags"])
    if rc:
        raise Broken("llvm-config failed: " + out)
    flags = [x for x in out.split() if x.startswith(("-I", "-D"))]
    jobs = [
        ["clang++-18", "-O1", "-std=c++17", "-fno-rtti"] + flags +
        [srcs[0], "-o", ex + ".tmp", "-L" + LLVM + "/lib",
         "-l:libclang-cpp.so.18.1", "-lLLVM-18"],
        ["g++", "-O2", "-std=c++17", srcs[3], srcs[1], "-o", en + ".tmp",
         "-lpthread"],
    ]
    with ThreadPoolExecutor(2) as p:
        for rc, out in p.map(run, jobs):
            if rc:
                raise Broken("cannot build the tools: " + out[-3000:])
    os.rename(ex + ".tmp", ex)
    os.rename(en + ".tmp", en)
    return ex, en


def sources():
    """The translation units of libisl, from the build description."""
    mk = open(os.path.join(REPO, "Makefile.am")).read()
    m = re.search(r"^libisl_la_SOURCES\s*=\s*\\\n((?:.*\\\n)*.*\n)", mk, re.M)
    if not m:
        raise Broken("libisl_la_SOURCES not found in Makefile.am")
    fs = [w for w in m.group(1).replace("\\", " ").split()
          if w.endswith(".c")]
    fs += ["isl_gmp.c", "isl_val_gmp.c"]
    fs = [f for f in dict.fromkeys(fs)
          if os.path.exists(os.path.join(REPO, f))]
    if len(fs) < 75:
        raise Broken("only %d source files found" % len(fs))
    return fs


ANN = ["give", "take", "keep", "null", "export", "overload", "constructor",
       "subclass"]


def cflags():
    gen = os.path.join(REPO, "_build")
    fl = ["-DHAVE_CONFIG_H"]
    fl += ["-I" + CONFIG, "-I.", "-Iinclude", "-I" + CONFIG + "/include"]
    for a in ANN:
        if a == "subclass":
            continue
        fl.append('-D__isl_%s=__attribute__((annotate("%s")))' % (a, a))
    fl += ["-resource-dir", LLVM + "/lib/clang/18", "-std=gnu11",
           "-Wno-everything"]
    return fl


def repo_files():
    fs = []
    for pat in ("*.c", "*.h", "include/isl/*.[ch]", "imath/*.[ch]", "include/isl/*/*.h",
                "Makefile.am", "interface/*.cc", "interface/*.h",
                "imath_wrap/*.h"):
        fs += glob.glob(os.path.join(REPO, pat))
    return [f for f in fs if os.path.isfile(f)]


def extract():
    """IR files of the library as it is in REPO now."""
    ex, en = build_tools()
    tools = [os.path.join(TOOL, "extract.cc"),
             os.path.join(VERIF, "lib", "inline.py"),
             os.path.join(VERIF, "rules", "functions.json")]
    key = sha(repo_files(), sha(tools) + REPO)
    return extract_key(ex, key), key


@locked
def extract_key(ex, key):
    d = os.path.join(BUILD, "ir-" + key)
    if os.path.exists(os.path.join(d, ".done")):
        return d
    olds = sorted(glob.glob(os.path.join(BUILD, "ir-*")), key=os.path.getmtime)
    for old in olds[:-3]:
        shutil.rmtree(old, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fl = cflags()

    def one(f):
        return f, run([ex, os.path.join(d, f[:-2].replace("/", "_") + ".ir"),
                       REPO, os.path.join(REPO, f), "--"] + fl, cwd=REPO)
    with ThreadPoolExecutor(8) as p:
        for f, (rc, out) in p.map(one, sources()):
            if rc:
                raise Broken("cannot analyse %s: %s" % (f, out[-2000:]))
    merge_helpers(d)
    open(os.path.join(d, ".done"), "w").close()
    return d


def merge_helpers(d):
    settled = set(json.load(open(os.path.join(VERIF, "rules",
                                              "functions.json"))))
    pat = re.compile(r'^\{"k":"fn","name":"([^"]+)".*?"static":1', re.M)
    merged = set()
    for p in sorted(glob.glob(os.path.join(d, "*.ir"))):
        with open(p) as f:
            txt = f.read()
        if {m[1] for m in pat.finditer(txt)} - settled:
            merged.update(inline.inline_unit(p, settled))
    with open(os.path.join(d, "merged.json"), "w") as f:
        json.dump(sorted(merged), f)


def nolimit():
    try:
        resource.setrlimit(resource.RLIMIT_STACK,
                           (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        s, h = resource.getrlimit(resource.RLIMIT_STACK)
        resource.setrlimit(resource.RLIMIT_STACK, (h, h))


def engine(cap):
    ex, en = build_tools()
    d, key = extract()
    return engine_key(en, d, cap), key


@locked
def engine_key(en, d, cap):
    h = os.path.basename(os.path.dirname(en))
    out = os.path.join(d, "engine-%s-%d.json" % (h, cap))
    if not os.path.exists(out):
        rc, txt = run([en, "-o", out + ".tmp", "--cap", str(cap)] +
                      sorted(glob.glob(os.path.join(d, "*.ir"))),
                      preexec_fn=nolimit)
        if rc:
            raise Broken("engine failed (%d): %s" % (rc, txt[-2000:]))
        os.rename(out + ".tmp", out)
    return json.load(open(out))


class IR:
    """The extracted program, for the structural rules."""

    def __init__(self, d):
        self.fns = []        # definitions
        self.decls = []
        self.recs = {}
        self.enums = []
        self.gvs = []
        self.switches = []
        self.unit_types = {}
        for p in sorted(glob.glob(os.path.join(d, "*.ir"))):
            unit = os.path.basename(p)[:-3]
            for line in open(p):
                o = json.loads(line)
                o["unit"] = unit
                k = o.get("k")
                if k == "fn":
                    self.fns.append(o)
                elif k == "fd":
                    self.decls.append(o)
                elif k == "rec":
                    self.recs.setdefault(o["name"], o)
                elif k == "enum":
                    self.enums.append(o)
                elif k == "gv":
                    self.gvs.append(o)
                elif k == "switch":
                    self.switches.append(o)
                elif k == "types":
                    self.unit_types[unit] = o
