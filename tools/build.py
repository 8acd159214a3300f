#!/usr/bin/env python3
"""Build the simulation binaries from /repo's current working tree into /verif/build.
Every binary is keyed by a hash of all its inputs (repo headers, harness, runtime, flags)."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
COMMON = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w", "-pthread"]
VARIANTS = {
  # full: every plain access and atomic goes through the simulator (store buffers, race detector, shadow heap)
  "full":   (["-std=c++17", "-O1"], True),
  # fast: atomics, system calls and thread operations only; longer histories and larger inputs
  "fast":   (["-std=c++17", "-O1", "-mllvm", "-tsan-instrument-memory-accesses=0", "-mllvm", "-tsan-instrument-memintrinsics=0"], False),
  # the same in C++20, where the library selects other code (std::atomic::wait, [[no_unique_address]], concepts)
  "full20": (["-std=c++20", "-O1"], True),
  # the other waiting strategies of atomic_wait.h
  "condvar": (["-std=c++17", "-O1", "-D__NO_FUTEX"], True), "notable": (["-std=c++17", "-O1", "-D__NO_TABLE"], True), "timed": (["-std=c++17", "-O1", "-D__NO_FUTEX", "-D__NO_CONDVAR"], True),
  # workers that never sleep, sleep at once, or use the standard allocator
  "spin": (["-std=c++17", "-O1", "-DPARLAY_ELASTIC_PARALLELISM=false"], True), "doze": (["-std=c++17", "-O1", "-DPARLAY_ELASTIC_STEAL_TIMEOUT=0"], True), "stdalloc": (["-std=c++17", "-O1", "-DPARLAY_USE_STD_ALLOC"], True),
  # debug assertions of the library enabled
  "dbg":    (["-std=c++17", "-O1", "-UNDEBUG", "-DDEBUG", "-DPAR_GRANULARITY=100"], True),
}
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]
def repo_files():
    out = []
    for top in ("include", "examples"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if top == "include" or f.endswith(".h")]
    return sorted(out)
_rh = None
def repo_hash():
    global _rh
    if _rh is None: _rh = file_hash(repo_files())
    return _rh
class BuildError(Exception): pass
def _atomic_compile(cmd, out):
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["timeout", "600"] + cmd + ["-o", tmp])
    if r.returncode != 0:
        try: os.unlink(tmp)
        except OSError: pass
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[:6000]))
    os.replace(tmp, out)
def rt_obj(full):
    src = [os.path.join(VERIF, "sim", f) for f in ("rt.cpp", "sim.h")]
    cmd = ["clang++", "-std=c++20", "-O2", "-g1", "-fno-stack-protector", "-w"] + (["-DSIM_FULL"] if full else []) + ["-c", src[0]]
    out = os.path.join(BUILD, "rt-%s-%s.o" % ("full" if full else "fast", file_hash(src)))
    if not os.path.exists(out): _atomic_compile(cmd, out)
    return out
def target(harness, variant, extra=()):
    """path of the binary for harness/<harness>.cpp in this variant, building it if needed"""
    flags, full = VARIANTS[variant]
    deps = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness"))) if f.endswith(".h")]
    deps += [os.path.join(VERIF, "harness", harness + ".cpp"), os.path.join(VERIF, "sim", "sim.h"), os.path.join(VERIF, "sim", "rt.cpp")]
    key = hashlib.sha256((repo_hash() + file_hash(deps) + " ".join(COMMON + flags + list(extra))).encode()).hexdigest()[:20]
    os.makedirs(BUILD, exist_ok=True)
    base = os.path.join(BUILD, "%s-%s" % (harness, variant)); binp = base + "-" + key
    if os.path.exists(binp): return binp
    with open(base + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binp): return binp
        for f in os.listdir(BUILD):                       # drop stale builds of the same target
            if f.startswith(os.path.basename(base) + "-") and not f.endswith(".lock"):
                try: os.unlink(os.path.join(BUILD, f))
                except OSError: pass
        with open(os.path.join(BUILD, "rt.lock"), "w") as rl:
            fcntl.flock(rl, fcntl.LOCK_EX); ro = rt_obj(full)
        # a harness with a line "// PARTS: n" is compiled as n translation units in parallel, each with some of its scenarios
        m = re.search(r"^// PARTS: (\d+)", open(deps[-3]).read(), re.M); parts = int(m.group(1)) if m else 0
        def comp(k):
            obj = binp + ".%d.o.tmpo" % k
            cmd = ["clang++"] + flags + COMMON + list(extra) + ["-DSIM_VARIANT=\"%s\"" % variant, "-DSIM_PARTNO=%d" % k, "-I" + os.path.join(VERIF, "sim"),
                   "-I" + os.path.join(REPO, "include"), "-idirafter", os.path.join(REPO, "examples"), "-c", deps[-3]]
            try: _atomic_compile(cmd, obj)
            except BuildError:                            # an internal helper may have been renamed: check what users can see
                try: _atomic_compile(cmd + ["-DSIM_NO_INTERNAL"], obj)
                except BuildError: pass
                else: return obj
                raise
            return obj
        with cf.ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, range(1, parts + 1) if parts else [0]))
        _atomic_compile(["clang++", "-no-pie"] + objs + [ro, "-lpthread", "-ldl"], binp)
        for o in objs: os.unlink(o)
    return binp
def build_all(pairs, jobs=8):
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = {ex.submit(target, h, v): (h, v) for h, v in pairs}
        out = {}
        for f in cf.as_completed(fs): out[fs[f]] = f.result()
    return out
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # the two runtime objects; every check builds its own binaries from /repo's current tree
        os.makedirs(BUILD, exist_ok=True); rt_obj(True); rt_obj(False); print("ok"); sys.exit(0)
    pairs = [(a.split(":")[0], a.split(":")[1] if ":" in a else "full") for a in sys.argv[1:]]
    try:
        for k, v in sorted(build_all(pairs).items()): print(k[0], k[1], v)
    except BuildError as e:
        print(str(e)[:8000]); sys.exit(2)
