"""Builds everything a check needs from the committed files and /repo's working tree, with a content-hashed cache."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
SYMX = os.path.join(BUILD, "engine", "symx")
CLANG = "/usr/bin/clang++-18"
LLVM_LINK = "/usr/bin/llvm-link-18"
OPT = "/usr/bin/opt-18"

BC_FLAGS = ["-std=gnu++17", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-pic", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
            "-D_GLIBCXX_ASSERTIONS", "-DDBUS_ASIO_VERIFICATION", "-gline-tables-only", "-DBOOST_THREAD_DONT_USE_DATETIME",
            "-emit-llvm", "-c"]
BC_INC = ["-I", VERIF + "/models/include", "-I", VERIF + "/models/include_asio", "-I", VERIF + "/models/runtime",
          "-I", REPO + "/src"]
NAT_FLAGS = {
    "asan": ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment", "-fno-omit-frame-pointer"],
    "plain": ["-std=gnu++17", "-O0", "-g1"],
    "tsan": ["-std=gnu++17", "-O1", "-g1", "-fsanitize=thread"],
}
NAT_FLAGS["sched"] = NAT_FLAGS["tsan"]  # the same objects, linked with native/atomics.cpp instead of the run-time library
NAT_COMMON = ["-D_GLIBCXX_ASSERTIONS", "-DDBUS_ASIO_VERIFICATION", "-DBOOST_THREAD_DONT_USE_DATETIME", "-w"]
NAT_INC = ["-I", VERIF + "/models/include_asio", "-I", VERIF + "/models/runtime", "-I", REPO + "/src"]
WRAP = ["mutex_init", "mutex_destroy", "mutex_lock", "mutex_trylock", "mutex_unlock", "cond_wait", "cond_timedwait",
        "cond_signal", "cond_broadcast", "create", "join", "detach", "rwlock_init", "rwlock_destroy", "rwlock_rdlock",
        "rwlock_wrlock", "rwlock_tryrdlock", "rwlock_trywrlock", "rwlock_unlock", "cond_clockwait"]
WRAP = ["pthread_" + w for w in WRAP] + ["sched_yield", "nanosleep", "clock_nanosleep", "usleep", "sleep"]
WRAP_ATOMIC = ["__tsan_atomic%d_%s" % (b, o) for b in (8, 16, 32, 64) for o in (
    "load", "store", "exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor",
    "compare_exchange_strong", "compare_exchange_weak")]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _digest(paths, extra):
    h = hashlib.sha256()
    h.update(repr(extra).encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:32]


def _tree(d):
    r = []
    for root, _, files in os.walk(d):
        for f in files:
            r.append(os.path.join(root, f))
    return sorted(r)


def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_engine():
    with lock("engine"):
        want = _digest(_tree(VERIF + "/engine"), "engine")
        stamp = os.path.join(BUILD, "engine", "stamp")
        if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == want:
            return
        _run(["make", "-s", "-j4", "-C", VERIF + "/engine", "B=" + BUILD + "/engine"])
        with open(stamp, "w") as f:
            f.write(want)


def _to_cache(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + suffix)
    if os.path.exists(out):
        os.utime(out)
        return out
    fd, tmp = tempfile.mkstemp(suffix=suffix, dir=CACHE)
    os.close(fd)
    try:
        make(tmp)
        os.rename(tmp, out)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return out


def _model_headers():
    return _tree(VERIF + "/models/include") + _tree(VERIF + "/models/include_asio") + [VERIF + "/models/runtime/symx.h"]


def repo_sources():
    r = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    return sorted(set(r))


def repo_headers():
    return [p for p in _tree(REPO + "/src") if not p.endswith(".cpp")]


def _bc(src, deps, extra_flags=()):
    flags = BC_FLAGS + list(extra_flags) + BC_INC
    key = _digest([src] + deps, [flags, CLANG])
    return _to_cache(key, ".bc", lambda tmp: _run([CLANG] + flags + [src, "-o", tmp]))


def _obj(src, deps, variant, extra_flags=()):
    flags = NAT_FLAGS[variant] + NAT_COMMON + list(extra_flags) + NAT_INC
    key = _digest([src] + deps, [flags, "g++"])
    return _to_cache(key, ".o", lambda tmp: _run(["g++"] + flags + ["-c", src, "-o", tmp]))


def harness_headers():
    return [p for p in _tree(VERIF + "/harness") if not p.endswith(".cpp")]


def _first_error(futs):
    err = None
    out = []
    for f in futs:
        try:
            out.append(f.result())
        except BuildError as e:
            err = err or e
    if err:
        raise err
    return out


def entries_of(src):
    return re.findall(r'extern "C" void (\w+)\(\)', open(src).read())


def module(harness, pool=None):
    """bitcode of harness + all of /repo/src + runtime, reduced to what the harness entries reach"""
    src = os.path.join(VERIF, "harness", harness)
    with lock("bc"):
        with ThreadPoolExecutor(8) as ex:
            mh = _model_headers()
            rh = repo_headers()
            fs = [ex.submit(_bc, src, mh + rh + harness_headers())]
            fs.append(ex.submit(_bc, VERIF + "/models/runtime/libstdcxx.cpp", mh))
            for s in repo_sources():
                fs.append(ex.submit(_bc, s, mh + rh))
            bcs = _first_error(fs)
        key = _digest(bcs, "link2")

        def link(tmp):
            _run([LLVM_LINK] + bcs + ["-o", tmp])
            api = entries_of(src) + ["_ZSt17__throw_bad_allocv"]
            _run([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(api), tmp, "-o", tmp])
        return _to_cache(key, ".linked.bc", link)


def native(harness, variant):
    src = os.path.join(VERIF, "harness", harness)
    with lock("nat-" + variant):
        with ThreadPoolExecutor(8) as ex:
            mh = _tree(VERIF + "/models/include_asio") + [VERIF + "/models/runtime/symx.h"]
            rh = repo_headers()
            fs = [ex.submit(_obj, src, mh + rh + harness_headers(), variant)]
            own = {"sched": ("plain", ["-DSYMX_ATOMICS"])}.get(variant, (variant, []))
            fs.append(ex.submit(_obj, VERIF + "/native/replay.cpp", mh, *own))
            if variant in ("sched", "tsan"):
                fs.append(ex.submit(_obj, VERIF + "/native/atomics.cpp", mh, *own))
            for s in repo_sources():
                fs.append(ex.submit(_obj, s, mh + rh, variant))
            objs = _first_error(fs)
        key = _digest(objs, ["native", variant, WRAP])

        def link(tmp):
            cmd = ["g++"] + NAT_FLAGS["plain" if variant == "sched" else variant] + objs + ["-rdynamic", "-o", tmp]
            cmd += ["-Wl,--wrap=" + w for w in WRAP + (WRAP_ATOMIC if variant == "tsan" else [])]
            cmd += ["-lboost_system", "-lpthread", "-ldl"]
            try:
                _run(cmd)
            except BuildError:
                _run([c for c in cmd if c != "-lboost_system"])
            os.chmod(tmp, 0o755)
        return _to_cache(key, ".exe", link)


def prune(keep_days=3):
    import time
    if not os.path.isdir(CACHE):
        return
    now = time.time()
    for f in os.listdir(CACHE):
        p = os.path.join(CACHE, f)
        try:
            if now - os.path.getmtime(p) > keep_days * 86400:
                os.unlink(p)
        except OSError:
            pass
