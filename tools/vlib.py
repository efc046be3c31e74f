"""Shared machinery: build libpbc + harness from /repo's working tree, run TLC, shard, report."""
import os, re, sys, json, time, glob, shutil, hashlib, subprocess, random, tempfile, atexit, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
PARAM = os.path.join(VERIF, "params")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8
T0 = time.time()

class Infra(Exception):
    """The machinery itself failed (no verdict)."""

def scratch():
    d = tempfile.mkdtemp(prefix="pbcv.")
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

# ------------------------------------------------------------------ building
def lib_sources():
    mk = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    src = []
    for m in re.finditer(r"^libpbc_la_SOURCES\s*\+?=\s*(.*)$", mk, re.M):
        src += [w for w in m.group(1).split() if w.endswith(".c") and "win32" not in w and not w.startswith("$")]
    if not src:
        raise Infra("no library sources found")
    return src

def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for d in ("arith", "ecc", "misc", "include", "pbc", "guru"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith((".c", ".h", ".y", ".lex", ".cc"))]
    files += [os.path.join(REPO, "Makefile.am")]
    files += list(extra)
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr(VARIANTS).encode())
    return h.hexdigest()[:16]

VARIANTS = {
    "plain": ["gcc", "-O1", "-g", "-std=gnu99", "-w"],
    "asan": ["gcc", "-O1", "-g", "-std=gnu99", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment,signed-integer-overflow",
             "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
VARIANTS["mem"] = VARIANTS["asan"]
for _v in ("plain", "asan", "mem"):                     # for the C++ wrapper: clang, as the repository's own build (g++ 13 rejects the header)
    VARIANTS["c" + _v] = ["clang" if c == "gcc" else c for c in VARIANTS[_v]] + (["-fno-sanitize=function"] if _v != "plain" else [])
DIRECT = ["-D%s=pbcv_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free", "strdup")]      # library objects of variant "mem"

def _prune(keep):
    if not os.path.isdir(BUILD): return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("t-")]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)

def build_dir():
    extra = glob.glob(os.path.join(HARN, "*"))
    d = os.path.join(BUILD, "t-" + tree_hash(extra))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    _prune(d)
    return d

def compile_objs(d, variant):
    """Compile every library source; returns the object list."""
    od = os.path.join(d, variant)
    os.makedirs(od, exist_ok=True)
    stamp = os.path.join(od, "stamp")
    objs = [os.path.join(od, s.replace("/", "_")[:-2] + ".o") for s in lib_sources()]
    if os.path.exists(stamp) and all(map(os.path.exists, objs)):
        return objs
    def one(so):
        s, o = so
        tmp = "%s.%d.tmp" % (o, os.getpid())
        p = sh(VARIANTS[variant] + (DIRECT if variant.endswith("mem") else []) + ["-I" + os.path.join(REPO, "include"), "-I" + REPO, "-c", os.path.join(REPO, s), "-o", tmp])
        if p.returncode: return s + "\n" + p.stderr.decode()
        os.replace(tmp, o)
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, zip(lib_sources(), objs)) if e]
    if errs: raise Infra("library does not compile: " + errs[0])
    open(stamp, "w").write("ok")
    return objs

_lock = threading.RLock()
_exe = {}
def build_driver(name="drv", variant="plain"):
    """Build (once per process; cached on the contents of the tree) and return the executable."""
    with _lock:
        key = (name, variant)
        if key not in _exe:
            os.makedirs(BUILD, exist_ok=True)
            with open(os.path.join(BUILD, "lock"), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                _exe[key] = _build_driver(name, variant)
        return _exe[key]

def _build_driver(name, variant):
    """drv: the register machine over the C interface; drvxx: over the C++ wrapper."""
    d = build_dir()
    out = os.path.join(d, "%s-%s" % (name, variant))
    if os.path.exists(out): return out
    if name == "calc": return _build_calc(d, out, variant)
    if name == "drvxx": variant = "c" + variant
    objs = compile_objs(d, variant)
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + HARN]
    tmp = "%s.%d.tmp" % (out, os.getpid())
    if variant.endswith("mem"): objs = objs + [os.path.join(HARN, "direct.c")]
    link, flags = list(VARIANTS[variant]), []
    if name == "drvxx":
        lk = os.path.join(d, "cxxinc"); os.makedirs(lk, exist_ok=True)
        if not os.path.islink(os.path.join(lk, "pbc")): os.symlink(os.path.join(REPO, "include"), os.path.join(lk, "pbc"))
        o = os.path.join(d, "drvxx-%s.o" % variant)
        cmd = [("clang++" if c == "clang" else "-std=gnu++14" if c == "-std=gnu99" else c) for c in VARIANTS[variant]]
        p = sh(cmd + ["-I" + lk] + inc + ["-c", os.path.join(HARN, "drvxx.cc"), "-o", o])
        if p.returncode: raise Infra("the C++ driver does not compile: " + p.stderr.decode()[:3000])
        objs = [o] + objs + ["-lstdc++"]; flags = ["-DWITH_XX"]
    p = sh(link + flags + inc + [os.path.join(HARN, "drv.c")] + objs + ["-lgmp", "-lm", "-o", tmp])
    if p.returncode: raise Infra("driver does not build: " + p.stderr.decode()[:3000])
    os.replace(tmp, out)
    return out

def _build_calc(d, out, variant):
    """The calculator, from pbc/ (grammar and lexer generated as the repository's build does)."""
    objs = compile_objs(d, variant)
    g = os.path.join(d, "calc-src-" + variant); os.makedirs(g, exist_ok=True)
    src = os.path.join(REPO, "pbc")
    for c in (["bison", "-d", "-b", os.path.join(g, "parser"), os.path.join(src, "parser.y")],
              ["flex", "-o", os.path.join(g, "lex.yy.c"), "--header-file=" + os.path.join(g, "lex.yy.h"), os.path.join(src, "parser.lex")]):
        p = sh(c)
        if p.returncode: raise Infra("calculator: " + p.stderr.decode()[:2000])
    files = [os.path.join(src, "pbc.c"), os.path.join(src, "pbc_getline.c"), os.path.join(g, "parser.tab.c"), os.path.join(g, "lex.yy.c")]
    for f in files[:2]: shutil.copy(f, g)                  # so that the generated headers found are these
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = sh(VARIANTS[variant] + ["-I" + g, "-I" + src, "-I" + os.path.join(REPO, "include"), "-I" + REPO] + [os.path.join(g, os.path.basename(f)) for f in files] + objs + ["-lgmp", "-lm", "-o", tmp])
    if p.returncode: raise Infra("the calculator does not build: " + p.stderr.decode()[:3000])
    os.replace(tmp, out)
    return out

_cls = []
def overrides():
    with _lock:
        if not _cls: _cls.append(_overrides())
        return _cls[0]

def _overrides():
    """Compile the Java overrides of the specification's number modules."""
    srcs = sorted(glob.glob(os.path.join(SPEC, "*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:12]
    d = os.path.join(BUILD, "cls-" + h)
    if os.path.isdir(d) and os.path.exists(os.path.join(d, "ok")): return d
    tmp = d + ".%d.tmp" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    p = sh(["javac", "-nowarn", "-cp", TLA, "-d", tmp] + srcs)
    if p.returncode: raise Infra("javac: " + p.stderr.decode())
    open(os.path.join(tmp, "ok"), "w").write("ok")
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

# ------------------------------------------------------------------ TLC
def tlc(module, cfg, workers=1, env=None, timeout=900, extra=(), heap="2g", override=True, sdir=None):
    """Run TLC; returns dict(rc, out, states, distinct, diameter, wall)."""
    md = tempfile.mkdtemp(prefix="pbctlc.")
    t = time.time()
    try:
        cp = TLA + ((":" + overrides()) if override else "")
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=1", "-DTLA-Library=" + SPEC, "-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
        try:
            p = sh(cmd, timeout=timeout, env=e, cwd=sdir or SPEC)
        except subprocess.TimeoutExpired:
            raise Infra("TLC timed out on %s" % module)
        out = p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
        r = {"rc": p.returncode, "out": out, "states": 0, "distinct": 0, "diameter": 0, "wall": time.time() - t}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m: r["states"], r["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m: r["diameter"] = int(m.group(1))
        return r
    finally:
        shutil.rmtree(md, ignore_errors=True)

def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))
