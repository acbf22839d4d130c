#!/usr/bin/env python3
"""Builds the simulator for one property against /repo's current working tree.

Objects are cached in /verif/build by the content of everything they depend on,
so that a stale object can never be linked.
"""
import concurrent.futures, fcntl, glob, hashlib, os, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPHSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = int(os.environ.get("SPHSIM_JOBS", "8"))
BASE = ["-std=c++17", "-I" + REPO + "/include", "-I" + HERE + "/sim", "-I" + REPO + "/src", "-w", "-fno-omit-frame-pointer", "-ffp-contract=off"]
ASAN = ["-O1", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"]
COV = ["-fsanitize-coverage=trace-pc-guard"]


class BuildError(Exception):
    pass


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_headers():
    return [p for d in ("include", "src") for p in glob.glob(REPO + "/" + d + "/**/*.h", recursive=True)]


def lib_sources():
    return sorted(glob.glob(REPO + "/src/*.cc"))


def sim_headers():
    return glob.glob(HERE + "/sim/*.h")


def compile_one(cxx, src, flags, deps):
    key = digest(deps + [src], cxx, flags)
    out = os.path.join(BUILD, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
    if os.path.exists(out):
        return out
    tmp = "%s.%d.%s.tmp" % (out, os.getpid(), key[:6])
    r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, out)
    return out


def compile_all(units):
    """units: list of (cxx, src, flags, deps) -> list of objects, in order."""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda u: compile_one(*u), units))


def link(cxx, objs, flags, name):
    key = digest(objs, cxx, flags)
    out = os.path.join(BUILD, "bin", name + "-" + key)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx] + objs + flags + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link %s\n%s" % (name, r.stdout[-4000:]))
        os.rename(tmp, out)
    return out


class Locked:
    def __enter__(self):
        os.makedirs(BUILD + "/obj", exist_ok=True)
        os.makedirs(BUILD + "/bin", exist_ok=True)
        self.f = open(BUILD + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def lib_units(cxx="clang++", flags=None):
    fl = BASE + (ASAN + COV if flags is None else flags)
    return [(cxx, s, fl, repo_headers()) for s in lib_sources()]


def sim_unit(name, extra=(), cxx="clang++", flags=None):
    return (cxx, HERE + "/sim/" + name, BASE + (ASAN if flags is None else flags) + list(extra), repo_headers() + sim_headers())


def core_unit(name, cxx="clang++", flags=None):
    """Driver files that do not include library headers."""
    return (cxx, HERE + "/sim/" + name, BASE + (ASAN if flags is None else flags), [HERE + "/sim/core.h"])


def build_world(src, name):
    objs = compile_all([sim_unit(src)] + [core_unit("driver.cc"), core_unit("env.cc")] + lib_units())
    return link("clang++", objs, ["-fsanitize=address", "-lpthread"], name)


TSAN = ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]


def build_threads(src, name):
    """Instrumented library and world, linked with the simulator's own runtime for the instrumentation."""
    plain = ["-O1", "-g1"]
    objs = compile_all([sim_unit(src, flags=TSAN)] + lib_units(flags=BASE + TSAN) +
                       [core_unit("driver.cc", flags=plain), core_unit("env.cc", flags=plain + ["-DSIM_THREADS"]),
                        ("clang++", HERE + "/sim/threads_rt.cc", BASE + ["-O2", "-g1", "-fno-builtin"], sim_headers())])
    return link("clang++", objs, ["-rdynamic", "-lpthread", "-ldl"], name)


NODES = [("clang++", "clang -O1", ["-O1"] + COV),
         ("clang++", "clang -O1 portable codec", ["-O1", "-DNO_OPTIMIZED_PATHS"]),
         ("clang++", "clang -O2 no SIMD", ["-O2", "-DNO_SIMD"]),
         ("g++", "gcc -O3", ["-O3"]),
         ("g++", "gcc -O0 portable codec, no SIMD", ["-O0", "-DNO_OPTIMIZED_PATHS", "-DNO_SIMD"]),
         ("clang++", "clang -O3 portable codec, no SIMD", ["-O3", "-DNO_OPTIMIZED_PATHS", "-DNO_SIMD"])]


def build_nodes(src, name):
    """Several differently configured builds of the library in one process, each under its own namespace."""
    plain = ["-O1", "-g1"]
    units = [(cxx_, s, f, d) for cxx_, s, f, d in [sim_unit(src, flags=plain), core_unit("driver.cc", flags=plain), core_unit("env.cc", flags=plain)]]
    for i, (cxx, label, opts) in enumerate(NODES):
        fl = BASE + ["-g1"] + opts + ["-Dlsst=lsst_%d" % i, "-Dsimlib=simlib_%d" % i]
        units += lib_units(cxx, fl)
        units.append((cxx, HERE + "/sim/node.cc", fl + ["-DNODE=%d" % i, '-DNODE_NAME="%s"' % label], repo_headers() + sim_headers()))
    return link("clang++", compile_all(units), ["-lpthread"], name)


PYTHON = "/opt/vp/venv/bin/python"
ASAN_OPTIONS = ("detect_leaks=0:abort_on_error=0:exitcode=70:symbolize=0:handle_abort=1:allocator_may_return_null=1:"
                "detect_stack_use_after_return=0:quarantine_size_mb=8:print_summary=0:malloc_context_size=0:alloc_dealloc_mismatch=0:"
                "max_allocation_size_mb=512:allocator_release_to_os_interval_ms=-1")


def build_python(script, prop):
    """The Python package of the working tree, its extension module instrumented, and the simulated interpreter's command line."""
    inc = subprocess.run([PYTHON, "-c", "import pybind11,sysconfig;print(pybind11.get_include());print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    mod = REPO + "/python/lsst/sphgeom"
    fl = BASE + ["-isystem", inc[1], "-isystem", inc[0], "-fPIC", "-fvisibility=hidden", "-g1", "-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"] + COV
    deps = repo_headers()
    objs = compile_all([("clang++", s, fl + ["-O0"], deps) for s in sorted(glob.glob(mod + "/*.cc"), key=os.path.getsize, reverse=True)] +
                       [("clang++", s, fl + ["-O1"], deps) for s in lib_sources()] +
                       [("clang++", HERE + "/sim/py/simpy.cc", ["-std=c++17", "-O1", "-fPIC", "-w", "-isystem", inc[1]], [])])
    pys = sorted(glob.glob(mod + "/*.py"))
    so = link("clang++", sorted(objs), ["-shared", "-shared-libasan", "-fsanitize=address", "-Wl,-Bsymbolic"], "pymod")
    root = os.path.join(BUILD, "py", digest(pys, so))
    pkg = root + "/lsst/sphgeom"
    if not os.path.exists(root + "/done"):
        os.makedirs(pkg, exist_ok=True)
        for p in pys:
            with open(p, "rb") as f, open(pkg + "/" + os.path.basename(p), "wb") as g:
                g.write(f.read())
        with open(pkg + "/version.py", "w") as f:
            f.write('__all__ = ("__version__",)\n__version__ = "simulated"\n')
        ext = pkg + "/_sphgeom" + inc[2]
        if os.path.lexists(ext):
            os.remove(ext)
        os.symlink(so, ext)
        open(root + "/done", "w").close()
    rt = subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    return ["env", "-u", "PYTHONHOME", "LD_PRELOAD=" + rt, "ASAN_OPTIONS=" + ASAN_OPTIONS, "PYTHONHASHSEED=0", "PYTHONMALLOC=malloc", "PYTHONDONTWRITEBYTECODE=1",
            "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1", "PYTHONPATH=" + root, PYTHON, HERE + "/sim/py/" + script]


def build(prop, leg=""):
    import worlds
    w = worlds.WORLDS[prop]
    with Locked():
        return (w[leg] if leg else w)["build"](sys.modules[__name__])


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        import worlds
        for prop in sorted(worlds.WORLDS) if sys.argv[1] == "all" else [sys.argv[1]]:
            print(__import__("build").build(prop))
    except Exception as e:
        print(e, file=sys.stderr)
        sys.exit(2)
