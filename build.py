#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into a scratch directory.

  build.py OUTDIR [--cov]

The sources are copied out of /repo first, so nothing is ever written there."""
import os, shutil, subprocess, sys, sysconfig, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SKIP = ("bmonom.cpp", "bpoly.cpp")   # not part of any build of the project; bpoly.cpp needs a header that does not exist
SIM = ["main", "judge", "seams", "m_mem", "m_misc", "m_cont", "m_int", "m_poly", "m_tree", "m_gb", "m_hilb", "m_draw", "m_text"]
PLAIN = ("main", "seams")            # not redirected: they are the simulator itself
REDEF = {n: "sut_" + n for n in ("aligned_alloc malloc calloc realloc posix_memalign free getpagesize sysconf times "
                                 "getrusage gettimeofday clock time clock_gettime exit rand").split()}
MUL = {"__gmpz_" + n: "sut_mpz_" + n for n in ("mul", "addmul", "submul")}
MUL["__assert_fail"] = "sut_assert_fail"
REDEF.update({"_ZNSt13random_device9_M_getvalEv": "sut_random_device",
              "_ZNSt6chrono3_V212steady_clock3nowEv": "sut_chrono_now",
              "_ZNSt6chrono3_V212system_clock3nowEv": "sut_chrono_now2"})
CONFIG = {"util": "#ifndef CONFIG_UTIL_H\n#define CONFIG_UTIL_H\n#define GINV_UTIL_ALLOCATOR\n#define GINV_UTIL_INTEGER_ALLOCATOR\n#endif\n",
          "ginv": None}

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd)[:300], r.stdout[:2500]))
        raise SystemExit(4)
    return r.stdout

def config_from(template, out, off=("WIN32",)):
    """config.h as cmake would write it, with everything on."""
    lines = []
    for l in open(template, encoding="utf-8"):
        w = l.split()
        if w and w[0] == "#cmakedefine":
            l = ("// off: " + w[1] + "\n") if any(o in w[1] for o in off) else "#define " + " ".join(w[1:]) + "\n"
        elif "@" in l:
            continue
        lines.append(l)
    open(out, "w", encoding="utf-8").write("".join(lines))

def copy_sources(out, dirs=("util", "ginv"), off=("WIN32",)):
    src = os.path.join(out, "src")
    if os.path.isdir(src):
        shutil.rmtree(src)
    for d in dirs:
        os.makedirs(os.path.join(src, d))
        base = os.path.join(REPO, d)
        for f in sorted(os.listdir(base)):
            p = os.path.join(base, f)
            if os.path.isfile(p) and f.endswith((".h", ".cpp", ".in", ".pyx", ".pxd", ".py")) and f != "config.h":
                shutil.copy(p, os.path.join(src, d, f))
        t = os.path.join(src, d, "config.h.in")
        if os.path.exists(t):
            config_from(t, os.path.join(src, d, "config.h"), off)
    return src

def build(out, cov=False, asserts=False, off=(), boolean=False):
    os.makedirs(out, exist_ok=True)
    src = copy_sources(out, off=("WIN32",) + tuple(off))
    obj = os.path.join(out, "obj")
    os.makedirs(obj, exist_ok=True)
    flags = ["-std=c++14", "-O1", "-g1", "-DNDEBUG", "-DGINV_SIM", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-w", "-I" + src, "-I" + os.path.join(src, "util"), "-I" + os.path.join(src, "ginv")]
    flags += ["-DSIM_NOINT"]*("INTEGER_ALLOCATOR" in off) + ["-DSIM_NOARENA"]*("UTIL_ALLOCATOR" in off)
    if asserts:
        flags.remove("-DNDEBUG")
    if cov:
        flags += ["--coverage"]
    jobs = []
    for d in ("ginv", "util"):
        for f in sorted(os.listdir(os.path.join(src, d))):
            if f.endswith(".cpp") and (f not in SKIP or boolean and f == "bmonom.cpp"):
                jobs.append((os.path.join(src, d, f), d[0] + "_" + f[:-4], True))
    for n in SIM + ["m_bmon"]*boolean:
        p = os.path.join(HERE, "sim", n + ".cpp")
        if os.path.exists(p):
            jobs.append((p, "s_" + n, n not in PLAIN))
    red = sum((["--redefine-sym", "%s=%s" % x] for x in list(REDEF.items()) + list(MUL.items())), [])
    def one(j):
        s, o, redirect = j
        o = os.path.join(obj, o + ".o")
        sh(["g++"] + flags + ["-I" + os.path.join(HERE, "sim"), "-c", s, "-o", o])
        if redirect:
            sh(["objcopy"] + red + [o])
        return o
    big = sorted(jobs, key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, big))
    exe = os.path.join(out, "sim")
    sh(["g++", "-fsanitize=address"] + (["--coverage"] if cov else []) + sorted(objs) + ["-lgmpxx", "-lgmp", "-o", exe])
    return exe

def build_cython(out):
    """The Python module on the sources of the working tree, with AddressSanitizer and the seams of pysim/cyseams.cpp."""
    os.makedirs(out, exist_ok=True)
    src = copy_sources(out, ("util", "ginv", "cython"), off=("WIN32",))
    obj = os.path.join(out, "obj")
    os.makedirs(obj, exist_ok=True)
    inc = ["-I" + src, "-I" + os.path.join(src, "util"), "-I" + os.path.join(src, "ginv")]
    flags = ["-std=c++14", "-O1", "-g1", "-fPIC", "-DNDEBUG", "-DGINV_SIM", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"] + inc
    sh([sys.executable, "-m", "cython", "-3", "--cplus", os.path.join(src, "cython", "ginv.pyx"), "-o", os.path.join(src, "cython", "ginv.cpp")])
    py = sysconfig.get_paths()["include"]
    jobs = [(os.path.join(src, "cython", "ginv.cpp"), "c_ginv", "env", ["-I" + py]), (os.path.join(HERE, "pysim", "cyseams.cpp"), "s_seams", False, [])]
    for d in ("ginv", "util"):
        for f in sorted(os.listdir(os.path.join(src, d))):
            if f.endswith(".cpp") and f not in SKIP:
                jobs.append((os.path.join(src, d, f), d[0] + "_" + f[:-4], True, []))
    red = sum((["--redefine-sym", "%s=%s" % x] for x in REDEF.items()), [])
    # the module's own object also holds inline library code; its heap is Python's business
    heap = ("aligned_alloc", "malloc", "calloc", "realloc", "posix_memalign", "free")
    env = sum((["--redefine-sym", "%s=%s" % x] for x in REDEF.items() if x[0] not in heap), [])
    def one(j):
        s, o, redirect, more = j
        o = os.path.join(obj, o + ".o")
        sh(["g++"] + flags + more + ["-c", s, "-o", o])
        if redirect == "env": sh(["objcopy"] + env + [o])
        elif redirect: sh(["objcopy"] + red + [o])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    so = os.path.join(out, "ginv.so")
    sh(["g++", "-shared", "-fsanitize=address"] + sorted(objs) + ["-lgmpxx", "-lgmp", "-lgvc", "-lcgraph", "-o", so])
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return so, asan

if __name__ == "__main__":
    print(build(sys.argv[1], "--cov" in sys.argv, "--asserts" in sys.argv))
