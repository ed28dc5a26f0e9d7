"""Builds the simulators from the repository's current working tree, cached by the content of every input."""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "clang++"
WRAP = ("malloc free calloc realloc posix_memalign aligned_alloc strdup pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock "
        "pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once "
        "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort _ZNSt13random_device9_M_getvalEv").split()
# what /opt/vp/build.sh adds for this toolchain, plus: an out-of-range Eigen or std access ends the run
PRE = "#include <cstddef>\n#include <cstdlib>\n#define eigen_assert(x) do { if (!(x)) ::abort(); } while (0)\n"


def tree(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, dirs, fs in os.walk(r):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "_build", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".h", ".hpp", ".hxx", ".inl", ".cpp", ".cc", ".cxx", ".c", ".urdf", ".py", ".txt"))]
    return out


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))


def compile_all(jobs):
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 1) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()


def lib_sources(repo):
    return (sorted(glob.glob(repo + "/urdf_parser/src/*.cpp")) + sorted(glob.glob(repo + "/urdf_parser/tinyxml/*.cpp")) +
            [f for f in sorted(glob.glob(repo + "/src/*.cpp")) if os.path.basename(f) != "wrapper.cpp"])


def includes(repo):
    return ["-I" + repo + "/urdf_parser/include", "-I" + repo + "/urdf_parser/tinyxml", "-I" + repo + "/include", "-I" + repo + "/third_party", "-I/usr/include/eigen3"]


def build_cpp(repo, d, race=False):
    """race: loads and stores of the library are judged by sim/race.cpp instead of AddressSanitizer"""
    sim = VERIF + "/sim/"
    pre = d + "/cutpre.h"
    with open(pre, "w") as f:
        f.write(PRE)
    common = [CXX, "-std=gnu++14", "-O1", "-g1", "-w"]
    cutf = common + ["-DNDEBUG", "-include", pre, "-DEIGEN_MAX_CPP_VER=03", "-D_GLIBCXX_ASSERTIONS"] + includes(repo) + [
        *(["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fsanitize-coverage=trace-pc-guard"] if race else
          ["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"])]
    jobs, cut, own = [], [], []
    for i, f in enumerate(lib_sources(repo) + [sim + "cut.cpp"]):
        o = "%s/cut%02d_%s.o" % (d, i, os.path.basename(f)[:-4])
        cut.append(o)
        jobs.append(cutf + ["-c", f, "-o", o])
    for n in ("rt", "ref", "plan", "world", "exec", "main") + (("race",) if race else ()):
        o = "%s/sim_%s.o" % (d, n)
        own.append(o)
        jobs.append(common + ["-c", sim + n + ".cpp", "-o", o])
    compile_all(jobs)
    run([CXX] + ([] if race else ["-fsanitize=address"]) + ["-Wl,--wrap=" + w for w in WRAP + (["strtok", "setlocale"] if race else [])] + cut + own + ["-o", d + "/sim", "-lpthread", "-ldl"])
    run(["python3", VERIF + "/tools/neutral.py", repo + "/data", d + "/data"])
    for o in cut + own:
        os.unlink(o)


def build_py(repo, d):
    """the real wrapper.cpp and library as the extension module, against the binding shim in pysim/shim"""
    py = "/opt/veriftools/pyvenv/bin/python3"
    inc = subprocess.run([py, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    if not os.path.exists(inc + "/Python.h"):
        inc = "/usr/include/python3.12"
    flags = [CXX, "-std=gnu++14", "-O1", "-g1", "-w", "-fPIC", "-DNDEBUG", "-include", "cstddef", "-DEIGEN_MAX_CPP_VER=03", "-DEIGEN_NO_DEBUG", "-D_GLIBCXX_ASSERTIONS",
             "-I" + VERIF + "/pysim/shim"] + includes(repo) + ["-I" + inc]
    jobs, objs = [], []
    for i, f in enumerate(lib_sources(repo) + [repo + "/src/wrapper.cpp", VERIF + "/pysim/shim/extras.cpp"]):
        o = "%s/o%02d.o" % (d, i)
        objs.append(o)
        jobs.append(flags + ["-c", f, "-o", o])
    compile_all(jobs)
    with open(d + "/exports", "w") as f:
        f.write("{ global: PyInit_*; local: *; };\n")
    run([CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,--version-script=" + d + "/exports", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc"] + objs + ["-o", d + "/_tinyfk.so"])
    run([CXX, "-shared", "-fPIC", "-O1", "-w", VERIF + "/pysim/shim/sysshim.cpp", "-o", d + "/sysshim.so", "-ldl"])
    os.makedirs(d + "/home/.tinyfk")
    for n in ("pr2", "fetch"):
        shutil.copy(repo + "/data/%s.urdf" % n, d + "/home/.tinyfk/")
    for o in objs:
        os.unlink(o)


def build(repo, root, kind):
    os.makedirs(root, exist_ok=True)
    h = hashlib.sha256((kind + repo).encode())
    own = [VERIF + "/simlib/build.py"] + ([VERIF + "/sim", VERIF + "/tools"] if kind != "py" else [VERIF + "/pysim/shim"])
    for f in tree(repo + "/urdf_parser", repo + "/include", repo + "/src", repo + "/data", *own):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    d = os.path.join(root, "%s-%s" % (kind, h.hexdigest()[:20]))
    with open(os.path.join(root, "lock." + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + "/done"):
            old = sorted((x for x in glob.glob(os.path.join(root, kind + "-*"))), key=os.path.getmtime)
            for x in old[:-5]:
                shutil.rmtree(x, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            {"cpp": build_cpp, "py": build_py, "race": lambda r, x: build_cpp(r, x, True)}[kind](repo, d)
            open(d + "/done", "w").close()
        os.utime(d)
    return {"dir": d, "sim": d + "/sim", "data": d + "/data"}
