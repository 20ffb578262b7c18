"""Build and run machinery shared by all checks (see DESIGN.md).

Every run re-derives the encoding from /repo's current sources: cmake configure (for the file list, flags and the
generated Config.h), clang bitcode for each library source, llvm-link with the runtime model and the harness, then the
symbolic executor.  Object caches under /verif/build are keyed by the preprocessed text, so they can never be stale.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX, CC = "clang++-18", "clang-18"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd)[:400], r.stderr.decode(errors="replace")[-3000:]))
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("vpsym.cpp", "expr.h", "solver.h")]
    key = sha(*[open(f, "rb").read() for f in src])
    out = os.path.join(BUILD, "vpsym-" + key)
    with Lock(".engine.lock"):
        if not os.path.exists(out):
            sh(["g++", "-std=c++17", "-O2", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
                "-D__STDC_LIMIT_MACROS", src[0], "-o", out + ".tmp", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
            os.rename(out + ".tmp", out)
    return out


def prune_cache():
    d = os.path.join(BUILD, "obj")
    fs = sorted(glob.glob(d + "/*"), key=lambda f: os.stat(f).st_mtime)
    size = sum(os.stat(f).st_size for f in fs)
    while fs and size > 1500 << 20:
        size -= os.stat(fs[0]).st_size
        os.unlink(fs.pop(0))


def configure():
    """cmake configure of the current tree -> list of (source, defines/includes, is_c) for the library target."""
    b = os.path.join(BUILD, "cfg")
    os.makedirs(b, exist_ok=True)
    args = ["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
            "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DLIBVARIANT_ENABLE_YAML=ON", "-DLIBVARIANT_ENABLE_XML=ON",
            "-DLIBVARIANT_ENABLE_CURL=ON", "-DLIBVARIANT_ENABLE_MSGPACK=OFF"]
    try:
        sh(args)
    except CheckError:
        shutil.rmtree(b)
        os.makedirs(b)
        sh(args)
    db = json.load(open(os.path.join(b, "compile_commands.json")))
    res, seen = [], set()
    for e in db:
        src = os.path.realpath(os.path.join(e["directory"], e["file"]))
        rel = os.path.relpath(src, os.path.realpath(REPO))
        cmd = shlex.split(e["command"]) if "command" in e else e["arguments"]
        out = cmd[cmd.index("-o") + 1] if "-o" in cmd else ""
        if "Variant.dir" not in out or src in seen:
            continue
        seen.add(src)
        flags, i = [], 0
        while i < len(cmd):
            a = cmd[i]
            if a in ("-I", "-D", "-isystem", "-include"):
                flags += [a, cmd[i + 1]]
                i += 1
            elif a.startswith(("-I", "-D", "-isystem", "-std=")):
                flags.append(a)
            i += 1
        res.append((src, rel, flags, src.endswith(".c")))
    if not res:
        raise CheckError("no library sources found in the build configuration")
    return res


def compile_cached(src, flags, is_c, tail, ext):
    cc = CC if is_c else CXX
    base = [cc, "-w"] + flags
    pre = sh(base + ["-E", src])
    key = sha(pre, " ".join([cc] + tail + [f for f in flags if f.startswith("-std")]))
    out = os.path.join(BUILD, "obj", key + ext)
    if not os.path.exists(out):
        tmp = "%s.%d.tmp" % (out, os.getpid())
        sh(base + tail + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


RT = ["rt_cxx.cpp", "rt_c.cpp", "rt_regex.cpp"]
BCFLAGS = ["-emit-llvm", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-pic"]
STUBINC = ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVP_ENGINE", "-I" + os.path.join(VERIF, "rt/include"), "-I" + os.path.join(VERIF, "rt")]
NATFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer"]


def public_flags(srcs):
    fl = []
    for _, _, f, _ in srcs:
        for x in f:
            if x.startswith(("-I", "-D")) and x not in fl:
                fl.append(x)
    return fl + ["-I" + os.path.join(REPO, "src"), "-I" + VERIF]


def build_bitcode(harness, extra_rt=()):
    """returns path of the linked bitcode for one harness"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with Lock(".build.lock"):
        srcs = configure()
        pub = public_flags(srcs)
        jobs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for r in list(RT) + list(extra_rt):
                jobs.append(ex.submit(compile_cached, os.path.join(VERIF, "rt", r), STUBINC, False, BCFLAGS + ["-fno-builtin"], ".bc"))
            jobs.append(ex.submit(compile_cached, os.path.join(VERIF, "harness", harness), STUBINC + pub, False, BCFLAGS, ".bc"))
            for s, rel, fl, c in srcs:
                jobs.append(ex.submit(compile_cached, s, ([] if c else STUBINC) + fl, c, BCFLAGS, ".bc"))
            bcs = [j.result() for j in jobs]
        out = os.path.join(BUILD, "obj", sha("link", *bcs) + ".linked.bc")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            sh(["llvm-link-18"] + bcs + ["-o", tmp + ".a"])
            sh(["opt-18", "--passes=internalize,globaldce", "--internalize-public-api-list=vp_main", tmp + ".a", "-o", tmp])
            os.unlink(tmp + ".a")
            os.rename(tmp, out)
        else:
            os.utime(out)
        prune_cache()
    return out, srcs


def build_native(harness, san=True, extra_native=(), libs=None):
    with Lock(".build.lock"):
        srcs = configure()
        pub = public_flags(srcs)
        tail = NATFLAGS + (["-fsanitize=address"] if san else [])
        with cf.ThreadPoolExecutor(NCPU) as ex:
            jobs = [ex.submit(compile_cached, s, fl, c, tail, ".o") for s, rel, fl, c in srcs]
            jobs.append(ex.submit(compile_cached, os.path.join(VERIF, "harness", harness), pub + ["-I" + os.path.join(VERIF, "rt")], False, tail, ".o"))
            jobs.append(ex.submit(compile_cached, os.path.join(VERIF, "rt", "vp_native.cpp"), ["-I" + os.path.join(VERIF, "rt")], False, tail, ".o"))
            for e in extra_native:
                jobs.append(ex.submit(compile_cached, os.path.join(VERIF, "rt", e), pub + ["-I" + os.path.join(VERIF, "rt")], False, tail, ".o"))
            objs = [j.result() for j in jobs]
        libs = libs if libs is not None else ["-lyaml", "-lxml2", "-lcurl"]
        out = os.path.join(BUILD, "obj", sha("exe", *(objs + libs)) + ".exe")
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            sh([CXX] + tail + objs + libs + ["-lpthread", "-Wl,--wrap=exit", "-o", tmp])
            os.rename(tmp, out)
        else:
            os.utime(out)
    return out


def run_engine(engine, bc, params, time_s, seed, jobs=NCPU, steps=30000000, noleak=False, maxviol=4, samples=4, pending=256, outdir=None, tag="x"):
    out = os.path.join(outdir, tag)
    for f in glob.glob(out + ".*"):
        os.unlink(f)
    cmd = [engine, bc, "--out", out, "--time", str(time_s), "--jobs", str(jobs), "--seed", str(seed), "--steps", str(steps),
           "--maxviol", str(maxviol), "--samples", str(samples), "--pending", str(pending)]
    if noleak:
        cmd.append("--noleak")
    for k, v in sorted(params.items()):
        cmd += ["--param", "%s=%d" % (k, v)]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=time_s + 60)
        err = r.stderr.decode(errors="replace")
        if r.returncode:
            return {"fatal": "engine exit %d: %s" % (r.returncode, err[-1500:])}
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", out])
        return {"fatal": "engine did not stop in time"}
    files = sorted(glob.glob(out + ".*"), key=lambda f: int(f.rsplit(".", 1)[1]))
    agg = {"errors": [], "reached": {}, "stubs": {}, "functions": set(), "violations": [], "samples": [], "complete": bool(files), "n": {}, "stderr": err[-2000:]}
    for f in files:
        d = json.load(open(f))
        agg["complete"] &= d["complete"]
        agg["errors"] += d["errors"]
        agg["violations"] += d["violations"]
        agg["samples"] += d["samples"]
        agg["functions"] |= set(d["functions"])
        for k in ("reached", "stubs"):
            for a, b in d[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if k in ("z3_max", "wall"):
                    agg["n"][k] = max(agg["n"].get(k, 0), v)
                else:
                    agg["n"][k] = agg["n"].get(k, 0) + v
        os.unlink(f)
    agg["secs"] = time.time() - t0
    return agg


def run_native(exe, lines, params, workdir, runs=1, timeout=20, valgrind=False):
    inp, res = os.path.join(workdir, "in.txt"), os.path.join(workdir, "res.txt")
    open(inp, "w").write("\n".join(lines) + "\n" if lines else "")
    if lines == [""]:
        open(inp, "w").write("\n")
    open(res, "w").close()
    env = dict(os.environ, VP_PARAMS=",".join("%s=%d" % kv for kv in params.items()), VP_RUNS=str(runs), VP_TIMEOUT=str(timeout),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2048", LC_ALL="C")
    cmd = [exe, inp, res]
    if valgrind:
        cmd = ["valgrind", "-q", "--trace-children=yes", "--error-exitcode=99", "--undef-value-errors=yes", "--track-origins=no"] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=timeout * (len(lines) + 1) + 60, stdin=subprocess.DEVNULL)
        err = r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return ["timeout"] * len(lines), ""
    out = open(res).read().split("\n")
    if out and out[-1] == "":
        out.pop()
    return out, err


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return r.stdout.decode(errors="replace").split("\n")[: len(names)]
