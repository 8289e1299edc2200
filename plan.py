"""What each check runs: engine, number of seeds and time per tier, what is real and what is stubbed."""
import glob, os, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PAGES = [(4096, 100), (4096, 100), (4096, 250), (8192, 100), (4096, 1000), (16384, 100), (4096, 100), (65536, 1000)]
MINIMISE = {"quick": 45, "thorough": 120}
PROBES = {0: "arena request refused", 1: "container insertion refused", 2: "compaction refused", 3: "integer operation refused",
          4: "compaction of a non-empty object", 5: "list splice", 6: "tree removal with two children", 7: "tree over 60 keys",
          8: "integer text beyond 65536 characters", 10: "reduction step", 11: "conditional reduction hit", 12: "normal form with reductions",
          13: "normal form with over 5 reductions", 14: "Hilbert polynomial of a tree", 15: "completion added elements", 16: "duplicate generator",
          20: "trivial ideal", 21: "basis over 12 elements", 22: "zero polynomial pushed", 23: "incremental round", 24: "algorithm build",
          25: "algorithm TQ", 26: "algorithm TQ1", 27: "algorithm TQ2", 28: "normal form zero", 29: "normal form nonzero", 30: "Hilbert polynomial of a basis",
          31: "Hilbert polynomial of a component", 32: "diagram of a red-black tree", 33: "diagram of a divisor tree", 34: "diagram of a forest",
          35: "diagram of a basis", 36: "text read back", 37: "stream refusal reported by an exception"}
CORE_REAL = ["arena allocator with its pages and accounting", "GMP"]
CORE_STUB = ["system heap behind the arenas (real memory, refusals and content decided by the seed)", "addresses of memory blocks", "page size", "clocks (times, sysconf)",
             "compaction decision", "standard error", "random_device", "process exit"]
A_CPP = ["compiled with g++ -std=c++14 -O1 -DNDEBUG and AddressSanitizer, hooks on (GINV_SIM)", "graph drawing goes to a recording stand-in for graphviz (cgraph, gvc)",
         "the code is single threaded: schedules are the interleaving of API calls of simulated clients and of compactions"]

PY_REAL = ["pyginv, its sources unchanged, on CPython and sympy"]
PY_STUB = ["clock (time.time, clock, process_time)", "thread scheduling (real threads released one call at a time by the seed)", "standard output", "KeyboardInterrupt arrival",
           "exception-raising writes", "hash seed (fixed; a second interpreter with another one for P27)"]
A_PY = ["the reference algebra (pysim/pyref.py: rational Buchberger and Janet definitions by brute force) is correct",
        "a completion of more than 3000000 package calls counts as not ending"]

def pure(quick, thorough, expect=(), **k):
    d = dict(engine="pure", quick=quick, thorough=thorough, real=PY_REAL, stub=PY_STUB, expect=expect, assume=A_PY)
    d.update(k)
    return d

def pde(quick, thorough, expect=(), **k):
    d = pure(quick, thorough, expect, **k)
    d["engine"] = "pde"
    d["assume"] = ["the reference algebra (pysim/oreref.py over sympy's sparse fraction fields) is correct", "a completion of more than 400000 package calls counts as not ending",
                   "runs whose coefficients grow beyond sense are left out"]
    return d

CY_REAL = ["cython/ginv.pyx translated by Cython, and the whole C++ library under it, with AddressSanitizer, in a real CPython"]
CY_STUB = ["content of new memory", "page size", "clocks", "compaction decision", "random_device", "standard output", "order and moment of dropping objects and collecting (seed)"]
A_CY = ["the reference algebra (pysim/pyref.py) is correct", "allocation failures are not injected: the binding declares no exceptions", "nf() changes the polynomial it is given, by design"]

def cython(quick, thorough, expect=(), **k):
    d = dict(engine="cython", quick=quick, thorough=thorough, real=CY_REAL, stub=CY_STUB, expect=expect, assume=A_CY)
    d.update(k)
    return d

def cpp(quick, thorough, real, expect=(), **k):
    d = dict(engine="cpp", quick=quick, thorough=thorough, real=CORE_REAL + real, stub=CORE_STUB, expect=expect, assume=A_CPP)
    d.update(k)
    return d

ORACLE = {}                          # short addition to the technique field
NOTE = {}
NA = {}
T = 780
PLAN = {
    "P01": cpp((16000, 15), (10**7, T), [], recheck=20),
    "P02": cpp((16000, 15), (10**7, T), ["lists, stacks, red-black trees, integers, monomials, polynomials, divisor trees, completions, basis algorithms"]),
    "P03": cpp((9000, 15), (10**7, T), ["basis algorithms", "polynomials"]),
    "P04": cpp((16000, 15), (10**7, T), ["lists, stacks, red-black trees, integers, monomials, polynomials, divisor trees"], ("arena request refused", "container insertion refused", "compaction refused", "integer operation refused")),
    "P05": cpp((6000, 18), (10**7, T), ["lists, integers, monomials, polynomials, divisor trees, basis algorithms"], ("compaction of a non-empty object",)),
    "P06": cpp((30000, 15), (10**7, T), ["List", "Stack"], ("list splice",)),
    "P07": cpp((20000, 15), (10**7, T), ["RBTree"], ("tree removal with two children", "tree over 60 keys")),
    "P08": cpp((20000, 15), (10**7, T), ["Integer"], ("integer text beyond 65536 characters",)),
    "P09": cpp((9000, 15), (10**7, T), ["PolyInt, Monom, Integer, List"]),
    "P10": cpp((16000, 15), (10**7, T), ["PolyInt, Monom, Integer, List"], ("normal form with reductions",)),
    "P11": cpp((12000, 18), (10**7, T), ["Janet, Wrap, Monom"]),
    "P12": cpp((36000, 15), (10**7, T), ["MJanet, MCompletion, Janet, Monom"], ("completion added elements", "duplicate generator")),
    "P13": cpp((24000, 15), (10**7, T), ["JanetPolyInt and all below"], ("algorithm build", "algorithm TQ", "algorithm TQ1", "algorithm TQ2")),
    "P14": cpp((20000, 15), (10**7, T), ["JanetPolyInt and all below"], ("incremental round",)),
    "P15": cpp((24000, 15), (10**7, T), ["JanetPolyInt and all below"], ("trivial ideal",)),
    "P16": cpp((20000, 15), (10**7, T), ["JanetPolyInt and all below"], ("normal form zero", "normal form nonzero")),
    "P17": cpp((20000, 15), (10**7, T), ["JanetPolyInt and all below"]),
    "P18": cpp((20000, 15), (10**7, T), ["JanetPolyInt, Janet, HilbertPoly"], ("Hilbert polynomial of a basis", "Hilbert polynomial of a tree")),
    "P19": cpp((5000, 15), (10**7, T), ["JanetPolyInt and all below, several sessions"]),
    "P20": cpp((8000, 15), (10**7, T), ["JanetPolyInt and all below"]),
    "P21": cpp((24000, 15), (10**7, T), ["Timer"]),
    "P22": cpp((24000, 15), (10**7, T), ["RandMonom, RandPermutation"]),
    "P23": cython((9000, 15), (10**7, T), ("view timer", "view wrap", "view janet", "iterator over a basis")),
    "P24": cython((9000, 15), (10**7, T), ("reduction", "normal form nonzero", "Hilbert polynomial of a basis")),
    "P25": pure((6000, 15), (10**7, T)),
    "P26": pure((6000, 15), (10**7, T)),
    "P27": pure((3000, 15), (10**7, T)),
    "P29": cpp((20000, 15), (10**7, T), ["RBTree, Janet, GB, JanetPolyInt and all below, pyginv's saveImage"],
               ("diagram of a red-black tree", "diagram of a divisor tree", "diagram of a forest", "diagram of a basis"), mix=["cpp"]*6 + ["pure"]*2),
    "P30": pure((72000, 15), (10**7, T)),
    "P31": pde((8000, 22), (10**7, T), ("coefficients with symbols", "integrability conditions found", "inhomogeneous system")),
    "P32": pde((12000, 15), (10**7, T), ("text read back", "expression read back", "built from an expression", "built by df or T")),
    "P33": cpp((14000, 15), (10**7, T), ["Monom, PolyInt, Wrap, HilbertPoly, RandPermutation, Timer, Integer"], ("text read back", "stream refusal reported by an exception")),
    "P34": cpp((26000, 18), (10**7, T), ["the whole C++ library compiled with its assertions on"], engine="debug", assume=A_CPP[1:] + ["compiled with g++ -std=c++14 -O1, assertions on, and AddressSanitizer"]),
    "P35": pure((30000, 15), (10**7, T), ("mul", "div", "lcm", "gradus")),
    "P36": pure((14000, 28), (10**7, T), ("displaced", "completion", "Hilbert polynomial")),
    "P37": cpp((24000, 22), (10**7, T), ["the whole C++ library in its other builds: without the arena allocator, without arena integers, without both"],
               mix=["noarena"]*3 + ["nointeger"]*3 + ["plain"]*2, engine="noarena",
               assume=A_CPP + ["GMP is never refused memory: it ends the process by design"]),
    "P38": cpp((20000, 15), (10**7, T), ["BMonom (not part of any target of the project, compiled from its source)"], engine="boolean"),
    "P28": cpp((48000, 15), (10**7, T), ["Monom"]),
}

BUILDS = {"noarena": ("UTIL_ALLOCATOR",), "nointeger": ("INTEGER_ALLOCATOR",), "plain": ("UTIL_ALLOCATOR", "INTEGER_ALLOCATOR")}

def prepare(engine, work, B, prop):
    if engine == "cpp":
        return [B.build(os.path.join(work, "b"))], {}
    if engine == "boolean":
        return [B.build(os.path.join(work, "bo"), boolean=True)], {}
    if engine == "debug":
        return [B.build(os.path.join(work, "d"), asserts=True)], {}
    if engine in BUILDS:
        return [B.build(os.path.join(work, engine), off=BUILDS[engine])], {}
    if engine in ("pure", "pde"):
        d = os.path.join(work, "pyginv")
        os.makedirs(d)
        for f in glob.glob(os.path.join(B.REPO, "pyginv", "*.py")): shutil.copy(f, d)
        return ([sys.executable, "-W", "ignore", "-B", os.path.join(HERE, "pysim", "psim.py"), "m_pure" if engine == "pure" else "m_pde"],
                dict(SIM_PYGINV=d, PYTHONHASHSEED="0", SIM_CPU="60", SIM_PROP_P27="1" if prop == "P27" else "0"))
    if engine == "cython":
        so, asan = B.build_cython(os.path.join(work, "cy"))
        return ([sys.executable, "-W", "ignore", "-B", os.path.join(HERE, "pysim", "psim.py"), "m_cy"],
                dict(SIM_CYMOD=os.path.dirname(so), PYTHONHASHSEED="0", LD_PRELOAD=asan, SIM_CPU="40"))
    raise SystemExit(4)
