"""Builds, from /repo's current sources, the symbolic and the native executable of a harness.

Symbolic: clang -O0 -emit-llvm on every translation unit of the library and on the harness; the textual
IR is rewritten so that every floating-point instruction, comparison, conversion and libm call becomes a
call into the symbolic runtime; then compiled and linked.  Everything else (memory, virtual dispatch,
containers, exceptions) runs as compiled."""
import hashlib, os, re, subprocess, sys, zlib, json, glob
from concurrent.futures import ThreadPoolExecutor

ENGINE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(ENGINE)
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
PYINC = [d for d in sorted(glob.glob("/usr/include/python3*"), reverse=True) if os.path.exists(d + "/Python.h")][:1]
INCS = ["-I" + ENGINE + "/stubinc", "-I" + REPO + "/include", "-I" + ENGINE, "-I" + VERIF + "/harness", "-I/usr/include/eigen3"] + ["-I" + d for d in PYINC]
COMMON = ["-std=gnu++14", "-w", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-ffp-contract=off"]

LIBM = "sqrt fabs acos asin atan atan2 sin cos tan exp log pow hypot fma fmin fmax copysign fmod floor ceil round trunc rint nearbyint cbrt exp2 log2 log10 log1p expm1 sinh cosh tanh".split()
INTR = {"llvm.sqrt.f64": "sqrt", "llvm.fabs.f64": "fabs", "llvm.sin.f64": "sin", "llvm.cos.f64": "cos", "llvm.exp.f64": "exp", "llvm.log.f64": "log",
        "llvm.pow.f64": "pow", "llvm.fma.f64": "fma", "llvm.fmuladd.f64": "fma", "llvm.minnum.f64": "fmin", "llvm.maxnum.f64": "fmax",
        "llvm.copysign.f64": "copysign", "llvm.floor.f64": "floor", "llvm.ceil.f64": "ceil", "llvm.round.f64": "round", "llvm.trunc.f64": "trunc",
        "llvm.rint.f64": "rint", "llvm.nearbyint.f64": "nearbyint", "llvm.exp2.f64": "exp2", "llvm.log2.f64": "log2", "llvm.log10.f64": "log10"}

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def repo_sources():
    """The library's translation units, as listed in its CMakeLists (CORE_SOURCES)."""
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(\s*CORE_SOURCES([^)]*)\)", txt)
    srcs = m.group(1).split() if m else []
    srcs = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if not srcs:
        srcs = [os.path.relpath(p, REPO) for p in glob.glob(REPO + "/src/**/*.cpp", recursive=True)]
    return srcs

def headers_hash():
    h = hashlib.sha256()
    for base in (REPO + "/src", REPO + "/include"):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".cc", ".c")): continue
                p = os.path.join(d, f); h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def engine_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(ENGINE + "/*.h") + glob.glob(ENGINE + "/*.cpp") + [__file__] + glob.glob(ENGINE + "/stubinc/**/*.hpp", recursive=True) + glob.glob(VERIF + "/harness/*.h")):
        h.update(open(p, "rb").read())
    return h.hexdigest()

_bin = re.compile(r"^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem)((?: (?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc))*) double (.+), (.+?)((?:, !dbg .*)?)$")
_neg = re.compile(r"^(\s*%\S+ = )fneg((?: (?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc))*) double (.+?)$")
_cmp = re.compile(r"^(\s*%\S+ = )fcmp((?: (?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc))*) (\w+) double (.+), (.+?)$")
_i2f = re.compile(r"^(\s*)(%\S+) = (sitofp|uitofp)(?: nneg)? (i\d+) (\S+) to double$")
_f2i = re.compile(r"^(\s*)(%\S+) = (fptosi|fptoui) double (\S+) to (i\d+)$")
_ftr = re.compile(r"^(\s*%\S+ = )(fptrunc|fpext) ")
_bc = re.compile(r"^(\s*%\S+ = )bitcast double (\S+) to i64$")
_def = re.compile(r'^define .*?@("?[\w.$]+"?)\(')
_bad = re.compile(r"\b(?:fadd|fsub|fmul|fdiv|frem|fneg|fcmp)\b.*(?:x double|\bfloat\b|x86_fp80)")

def rewrite(text, names):
    """Returns the rewritten IR and a list of constructs that are left as they are."""
    out = []; warn = []; ctr = 0; infn = False; fname = ""
    used = set()
    pending = None
    for line in text.split("\n"):
        if pending is not None:
            if re.match(r'^[\w.$"-]+:', line):
                out.append(line); out.append(pending); pending = None; continue
            out.append(pending); pending = None
        if line.startswith("define "):
            m = _def.match(line); fname = m.group(1).strip('"') if m else ""
            out.append(line)
            if "DynamicObstacleAvoidance" in fname:
                k = zlib.crc32(fname.encode()) & 0xffffffff
                names["%08x" % k] = fname
                pending = ("  call void @__sx_enter(i32 %d)" % (k - (1 << 32) if k >= (1 << 31) else k)); used.add("enter")
            continue
        if line.startswith("  ") and "double" in line:
            m = _bin.match(line)
            if m:
                out.append("%scall double @__sx_%s(double %s, double %s)" % (m.group(1), m.group(2), m.group(4), m.group(5))); used.add(m.group(2)); continue
            m = _cmp.match(line)
            if m:
                p = m.group(3)
                if p in ("true", "false"):
                    out.append("%sxor i1 %s, false" % (m.group(1), p)); continue
                out.append("%scall zeroext i1 @__sx_%s(double %s, double %s)" % (m.group(1), p, m.group(4), m.group(5))); used.add("c:" + p); continue
            m = _neg.match(line)
            if m:
                out.append("%scall double @__sx_fneg(double %s)" % (m.group(1), m.group(3))); used.add("fneg"); continue
            m = _i2f.match(line)
            if m:
                ind, res, op, ty, val = m.groups()
                if ty == "i64": w = val
                elif int(ty[1:]) > 64: warn.append(fname + ": " + line.strip()); out.append(line); continue
                else:
                    w = "%%sx.c%d" % ctr; ctr += 1
                    out.append("%s%s = %s %s %s to i64" % (ind, w, "sext" if op == "sitofp" else "zext", ty, val))
                out.append("%s%s = call double @__sx_%s(i64 %s)" % (ind, res, op, w)); used.add(op); continue
            m = _f2i.match(line)
            if m:
                ind, res, op, val, ty = m.groups()
                if ty == "i64": out.append("%s%s = call i64 @__sx_%s(double %s)" % (ind, res, op, val))
                else:
                    w = "%%sx.c%d" % ctr; ctr += 1
                    out.append("%s%s = call i64 @__sx_%s(double %s)" % (ind, w, op, val))
                    out.append("%s%s = trunc i64 %s to %s" % (ind, res, w, ty))
                used.add(op); continue
            m = _bc.match(line)
            if m:
                out.append("%scall i64 @__sx_dbits(double %s)" % (m.group(1), m.group(2))); used.add("dbits"); continue
            if _bad.search(line) or _ftr.match(line):
                warn.append(fname + ": " + line.strip())
        out.append(line)
    t = "\n".join(out)
    for i, m in INTR.items():
        t = t.replace("@" + i + "(", "@__sx_i_" + m + "(")
    t = t.replace("@llvm.is.fpclass.f64(", "@__sx_class(")
    # the declarations of intrinsics carry attributes that ordinary functions must not have
    t = re.sub(r"^declare (.*@__sx_(?:i_\w+|class)\([^)]*\)).*$", lambda m: "declare " + re.sub(r" immarg", "", m.group(1)), t, flags=re.M)
    for m in LIBM:
        t = re.sub(r"@%s\(" % m, "@__sx_m_%s(" % m, t)
        t = re.sub(r"@__sx_i_%s\(" % m, "@__sx_m_%s(" % m, t)
    # a math function may now be declared twice
    seen = set(); lines = []
    for line in t.split("\n"):
        if line.startswith("declare "):
            m = re.search(r"@(__sx_m_\w+)\(", line)
            if m:
                if m.group(1) in seen: continue
                seen.add(m.group(1))
                # drop the attribute group (memory(none) would allow calls to be merged or dropped)
                line = re.sub(r" #\d+\s*$", "", line)
        lines.append(line)
    t = "\n".join(lines)
    t = re.sub(r"(call (?:noundef )?double @__sx_m_\w+\(.*\)) #\d+", r"\1", t)
    t = t.replace("@rand(", "@__sx_rand(")
    decl = []
    for u in sorted(used):
        if u.startswith("c:"): decl.append("declare zeroext i1 @__sx_%s(double, double)" % u[2:])
        elif u == "fneg": decl.append("declare double @__sx_fneg(double)")
        elif u in ("sitofp", "uitofp"): decl.append("declare double @__sx_%s(i64)" % u)
        elif u in ("fptosi", "fptoui"): decl.append("declare i64 @__sx_%s(double)" % u)
        elif u == "dbits": decl.append("declare i64 @__sx_dbits(double)")
        elif u == "enter": decl.append("declare void @__sx_enter(i32)")
        else: decl.append("declare double @__sx_%s(double, double)" % u)
    return t + "\n" + "\n".join(decl) + "\n", warn

class BuildError(Exception):
    pass

def sym_object(src, obj, harness=False):
    """src -> IR -> rewritten IR -> object. Returns (names, warnings)."""
    ll = obj[:-2] + ".ll"
    flags = [CLANG] + COMMON + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-ftrivial-auto-var-init=pattern", "-fmath-errno", "-S", "-emit-llvm", "-DVH_SYM"] + INCS + [src, "-o", ll]
    rc, out = run(flags)
    if rc: raise BuildError("clang failed on %s:\n%s" % (src, out[-3000:]))
    names = {}
    t, warn = rewrite(open(ll).read(), names)
    open(ll, "w").write(t)
    rc, out = run([CLANG, "-O1", "-Wno-override-module", "-c", ll, "-o", obj])
    if rc: raise BuildError("compiling rewritten IR of %s failed:\n%s" % (src, out[-3000:]))
    os.unlink(ll)
    json.dump([names, warn], open(obj[:-2] + ".json", "w"))
    return names, warn

def native_object(src, obj):
    rc, out = run(["g++"] + COMMON + ["-O1", "-ftrivial-auto-var-init=pattern", "-c"] + INCS + [src, "-o", obj])
    if rc: raise BuildError("g++ failed on %s:\n%s" % (src, out[-3000:]))

def ensure(harness):
    """Builds what is missing for harness/<harness>.cpp; returns (sym_exe, native_exe, names, warnings).
    Objects are cached by the content of the source, of every header of the repository and of the engine."""
    d = BUILD; os.makedirs(d, exist_ok=True)
    base = REPO + headers_hash() + engine_hash()
    jobs = []; sobj = []; nobj = []
    def job(fn, tag, src):
        k = hashlib.sha256((base + tag + src).encode() + open(src, "rb").read()).hexdigest()[:20]
        obj = os.path.join(d, tag + os.path.basename(src)[:-4] + "_" + k + ".o")
        def f():
            if os.path.exists(obj): os.utime(obj); return
            tmp = "%s.%d.o" % (obj[:-2], os.getpid())
            fn(src, tmp)
            if os.path.exists(tmp[:-2] + ".json"): os.replace(tmp[:-2] + ".json", obj[:-2] + ".json")
            os.replace(tmp, obj)
        jobs.append(f); return obj
    def rts(src, obj):
        rc, out = run([CLANG] + COMMON + ["-O2", "-DVH_SYM", "-c"] + INCS + [src, "-o", obj])
        if rc: raise BuildError(out[-3000:])
    hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
    hs, hn = job(sym_object, "s_", hsrc), job(native_object, "n_", hsrc)
    for x in repo_sources():
        src = os.path.join(REPO, x); sobj.append(job(sym_object, "s_", src)); nobj.append(job(native_object, "n_", src))
    rs, rn = job(rts, "r_", ENGINE + "/rt_sym.cpp"), job(native_object, "r_", ENGINE + "/rt_native.cpp")
    with ThreadPoolExecutor(8) as ex:
        for r in [ex.submit(j) for j in jobs]: r.result()
    def link(kind, objs):
        exe = os.path.join(d, kind + harness + "_" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:20])
        if os.path.exists(exe): os.utime(exe); return exe
        tmp = exe + ".%d" % os.getpid()
        rc, out = run([CLANG if kind == "sym_" else "g++"] + objs + ["-o", tmp] + (["-Wl,--wrap=rand", "-Wl,--wrap=acos"] if kind == "nat_" else []))
        if rc: raise BuildError("link failed:\n" + out[-3000:])
        os.replace(tmp, exe); return exe
    se = link("sym_", [hs] + sobj + [rs]); ne = link("nat_", [hn] + nobj + [rn])
    names = {}; warn = []
    for o in sobj + [hs]:
        n, w = json.load(open(o[:-2] + ".json")); names.update(n); warn += w
    return se, ne, names, warn

def prune(days=0.5):
    """Drops build products that have not been used for a while."""
    try:
        import time
        for x in os.listdir(BUILD):
            p = os.path.join(BUILD, x)
            if os.path.isfile(p) and time.time() - os.path.getmtime(p) > days * 86400: os.unlink(p)
    except OSError: pass
