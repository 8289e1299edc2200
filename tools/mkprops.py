#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
GC_HOOK = "GINV_SIM: the decision whether an arena is compacted now is asked of the simulator (util/allocator.h)"

p("P01", "Arena blocks never overlap, stay aligned and keep their bytes",
  "Every block of memory handed out by an arena is 16-byte aligned, lies in memory the arena owns and is disjoint from every other live block of every arena. Its bytes stay exactly as the holder wrote them, whatever is allocated, freed, swapped between arenas or destroyed elsewhere, until the holder frees the block or its arena is destroyed.",
  ["histories", "configurations"],
  "all interleavings of allocate/free/swap/destroy over several live arenas, block sizes from one byte to several pages, any system page size, any initial content of system memory",
  "Tests allocate a few fixed sizes from one arena on one page size and look at counters only; block overlap shows only for particular size sequences around a page boundary.",
  ["util/allocator.h", "util/allocator.cpp"],
  [("bump allocation in a chain of page-sized blocks", "Allocator::allocate"), ("exchange of the chains", "Allocator::swap")],
  ["pointers returned by the arena", "bytes of live blocks"])
p("P02", "Memory accounting is exact, returns to zero, and nothing leaks",
  "The bytes an arena reports as used cover the live blocks and return to exactly the earlier value when the blocks taken since are freed (zero when all are); the process-wide current figure equals the sum of what all live arenas hold, and the peak figure is the largest value it ever reached. When every object, basis and arena of a session is gone, the current figure is back where it started, every byte taken from the system has been given back exactly once, and no arena reports bytes outstanding.",
  ["histories", "schedules", "configurations"],
  "all histories of containers, integers, polynomials, trees and basis computations, with compaction striking at any point and any page size",
  "Tests check counters after short straight-line uses; a leak on one path (a cancelled term, a replaced basis element, a compaction in the middle) needs a particular history.",
  ["util/allocator.h", "util/allocator.cpp", "util/list.h", "util/stack.h", "util/rbtree.h", "util/integer.h", "ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/mcompletion.cpp"],
  [("used/reserved counters per arena, static totals", "Allocator::allocate, deallocate, ~Allocator"), ("destroy of each element", "PolyInt::clear, MCompletion::~MCompletion, JanetPolyInt::~JanetPolyInt")],
  ["size(), alloc(), currMemory(), maxMemory()", "calls to the system allocator"], GC_HOOK)
p("P03", "The memory limit stops the computation exactly when it is exceeded",
  "With a memory limit set, the process stops with a diagnostic at the first reservation that takes the peak over the limit, and never continues past it. While the peak stays within the limit (or no limit is set) the computation is not stopped and its results are the same as without a limit.",
  ["histories", "fault_sequences"],
  "all histories of reservations and basis computations, limits placed anywhere around the peak, limits set, raised and removed at any moment",
  "No test sets a limit; the exact stopping point depends on the whole history of reservations including transient ones.",
  ["util/allocator.h", "util/allocator.cpp"],
  [("comparison of the peak with the limit on each reservation", "Allocator::allocate, Allocator::Allocator(const Allocator&)")],
  ["process exit and standard error", "maxMemory()"])
p("P04", "A refused memory request is reported and changes nothing",
  "When the system refuses memory, the failing arena request, container insertion, in-place integer operation or compaction is reported to the caller as an out-of-memory error, never by returning unusable memory. The arena's accounting and blocks, the container, the number or the object being compacted are unchanged, nothing is lost to the system, and the same request succeeds once memory is available again.",
  ["fault_sequences", "histories"],
  "every request position at which the system refuses memory, in every history of arenas, containers, integers and compactions",
  "No test makes an allocation fail.",
  ["util/allocator.h", "util/allocator.cpp", "util/list.h", "util/stack.h", "util/rbtree.h", "util/integer.cpp"],
  [("bad_alloc from the block constructor before any counter changes", "Allocator::Node, Allocator::allocate"), ("copy then swap", "GC::reallocate, GCPolyInt::reallocate, Integer::add")],
  ["exceptions", "counters and contents after the failure"])
p("P05", "Compaction is transparent and returns memory",
  "Compacting any object that owns an arena (list, integer, monomial, polynomial, divisor tree) at any moment leaves its value, and every answer it gives, exactly the same, and never disturbs another object. Right after a compaction the arena holds no more than the live data needs plus block rounding, so repeated change-and-compact cycles do not grow memory without bound.",
  ["schedules", "histories", "configurations"],
  "all schedules of compaction against all histories of operations on the object, any page size",
  "The shipped heuristic compacts rarely, at points fixed by sizes; tests cannot choose when it strikes.",
  ["util/allocator.h", "ginv/poly_int.h", "ginv/janet.h", "ginv/janet.cpp", "util/list.h", "util/integer.h", "ginv/monom.cpp"],
  [("copy into a fresh arena, swap", "GC::reallocate, GCPolyInt::reallocate"), ("deep copies", "Janet::build, PolyInt(Allocator*, const PolyInt&), List(Allocator*, const List&)")],
  ["values before and after", "alloc(), size()"], GC_HOOK)
p("P06", "Lists and stacks behave as sequences under every history",
  "A list holds exactly the sequence its history of pushes, pops, insertions, deletions, splices, copies, moves, swaps, clears and compactions produces, in order, with the right length and iteration; a stack holds its items last-in-first-out with every item readable by index across growth, assignment, reset and swap. Copies are independent of their source.",
  ["histories", "schedules"],
  "all operation histories over several containers sharing arenas, with compactions between any two operations",
  "Tests run short scripted sequences on one container.",
  ["util/list.h", "util/stack.h"],
  [("link-level iterators", "List::Iterator"), ("geometric growth", "Stack::resize")],
  ["contents, length, iteration"], GC_HOOK)
p("P07", "Red-black trees stay sorted, balanced and complete",
  "Under every history of insertions, removals, copies, assignments, moves, swaps and clears a tree holds exactly the set of keys its history implies, enumerates it in order forwards and backwards, and answers membership, minimum, maximum, predecessor and successor queries correctly. After every operation the root is black, no red node has a red child and all paths to a leaf cross the same number of black nodes.",
  ["histories"],
  "all histories of operations over several trees, both key orders, trees from empty to hundreds of keys",
  "Tests insert and remove random keys in bulk and call the tree's own validity routine; rebalancing cases after removals in copied or assigned trees need specific shapes.",
  ["util/rbtree.h"],
  [("insertFixup/deleteFixup rotations", "RBTree"), ("threaded next/prev by parent links", "RBTree::next, RBTree::prev"), ("structural copy", "RBTree::copy")],
  ["queries and iteration", "node colours through the public cursor"])
p("P08", "Arbitrary-precision integers are exact and never disturb one another",
  "Every operation on big integers gives the exact value, for operands of any size and sign, into fresh, reused, moved or swapped objects of any arena, and text conversion round-trips in every base. No operation changes the value of any other live integer, whenever compactions happen.",
  ["histories", "schedules", "inputs"],
  "all histories of arithmetic over a pool of integers in several arenas, magnitudes from zero to thousands of limbs, compactions between any two operations",
  "Tests compute a few fixed values; limb storage lives in arenas with hand-computed sizes, so a size that is one limb short corrupts a neighbour only for particular carries and layouts.",
  ["util/integer.h", "util/integer.cpp"],
  [("limb buffers sized in the arena before the GMP call", "Integer::reallocate and callers"), ("growing text buffer", "Integer::get_str")],
  ["values by text conversion and comparison"], GC_HOOK)
p("P09", "Polynomial arithmetic is exact and canonical under every history",
  "Addition, subtraction, multiplication, powers, negation, multiplication by a variable, operations with integer constants, copying, moving, assigning and swapping of polynomials and vectors of polynomials give exactly the polynomial the algebra defines, in every supported term order. The result is always canonical (terms strictly descending in the order, no zero coefficients, no repeated monomial), its queries (leading monomial and coefficient, length, largest component) agree with it, and no operation changes another polynomial.",
  ["histories", "schedules", "inputs"],
  "all histories over pools of polynomials, one to five variables, ring elements and module elements, all orders, compactions between any two operations",
  "Tests check a handful of identities on random polynomials in one order with assertions compiled in.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/poly.h", "ginv/poly.cpp", "ginv/monom.h", "ginv/monom.cpp"],
  [("merge of sorted term lists", "PolyInt::add, sub, mult"), ("order comparators", "Poly::setOrder, Monom::lex/deglex/alex")],
  ["terms through the public iterator"], GC_HOOK)
p("P10", "Reduction, tail reduction and primitive part keep the residue class",
  "A reduction step, a full normal form and a tail reduction replace a polynomial by a nonzero rational multiple of itself minus a combination of the divisors used: the leading term of a reduced step is gone, a full normal form contains no term with a divisor, and its value does not depend on compactions or on what was reduced before. Taking the primitive part divides out exactly the content and the primitivity test agrees with it.",
  ["histories", "schedules", "inputs"],
  "all histories of reductions over pools of polynomials and divisor sets, ring and module, all orders, compaction schedules",
  "Tests reduce by random polynomials and look at leading terms; scaling of the already passed terms and cancellation in the tail need particular coefficient patterns.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/monom.cpp"],
  [("fraction-free cross multiplication by cofactors of the gcd", "PolyInt::reduction, redTail"), ("content", "PolyInt::pp, isPp")],
  ["the reduced polynomial"], GC_HOOK)
p("P11", "Involutive divisor lookup follows the Janet division, in any arrival order",
  "A divisor tree holding a set of leading monomials marks a variable non-multiplicative for an element exactly when the Janet division says so, and looking up a monomial returns the one element that involutively divides it, or nothing. This holds after every insertion, in every arrival order, and after the tree is copied, compacted or swapped. A forest of such trees, one per degree of ancestor, marks a new element against the earlier trees, finds the first admissible divisor in order of degree, and counts its elements, whatever the degrees.",
  ["histories", "schedules", "inputs"],
  "all arrival orders of all monomial sets, interleaved with lookups, compactions and swaps",
  "Tests build a few random trees in one order and compare sizes.",
  ["ginv/janet.h", "ginv/janet.cpp", "ginv/wrap.h", "ginv/wrap.cpp", "ginv/gb.h", "ginv/gb.cpp"],
  [("forest of trees", "GB::insert, GB::find"), ("degree/variable chains", "Janet::insert, Janet::find"), ("non-multiplicative marks", "Janet::setMNprec, setMNsucc, ConstIterator::setNM"), ("copy", "Janet::build")],
  ["found element", "marks of each element"], GC_HOOK)
p("P12", "Monomial completion generates the same ideal and is involutively complete",
  "Completing a set of monomials, whatever the arrival order and the processing order chosen, terminates, keeps the generated monomial ideal, and makes every monomial of the ideal findable while no monomial outside it is. The elements carry correct non-multiplicative marks for the Janet completion, and generators may be repeated.",
  ["histories", "inputs", "configurations"],
  "all generator sets and arrival orders, all seven processing orders, several completions alive at once",
  "Tests complete a few random sets and only print or count.",
  ["ginv/mcompletion.h", "ginv/mcompletion.cpp", "ginv/janet.cpp"],
  [("prolongation queue", "MCompletion::build, MJanet::build"), ("ordered insertion", "MCompletion::insert")],
  ["find() and the completed set"])
p("P13", "Every algorithm computes a correct involutive basis of the ideal",
  "Each of the four completion algorithms stops with a basis that generates exactly the ideal of the polynomials pushed, in which every leading monomial of the ideal has exactly one involutive divisor, and every prolongation reduces to zero. This does not depend on arrival order, term order, redundant or repeated generators, or on when compaction strikes.",
  ["inputs", "schedules", "histories", "configurations"],
  "all generating sets, arrival orders, four algorithms, both admissible orders, all compaction schedules and page sizes",
  "Tests run two or three classical systems and check sizes in debug assertions.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.cpp", "ginv/wrap.h"],
  [("completion loops", "JanetPolyInt::algorithmTQ, TQ1, TQ2, BlockTQ"), ("criteria", "JanetPolyInt::prolong"), ("queues ordered by leading monomial", "JanetPolyInt::insert")],
  ["basis elements, marks, find()"], GC_HOOK)
p("P14", "Pushing more polynomials later extends the basis correctly",
  "Polynomials may be pushed after a basis has been computed, in any number of rounds and with a different algorithm each round: each build yields a correct involutive basis of the ideal or module generated by everything pushed so far, the same one a single build of all of it describes. Elements that were already implied change nothing in the ideal or module, and rebuilding without new input changes nothing.",
  ["histories", "schedules"],
  "all sequences of push and build rounds, all algorithm choices per round, compaction schedules",
  "Tests push everything, build once and stop.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp"],
  [("queue and finished set survive a build", "JanetPolyInt::mQ, mT, setPos"), ("prolongations of old elements", "JanetPolyInt::prolongRest")],
  ["basis elements after each round"], GC_HOOK)
p("P15", "A trivial ideal is recognised, exactly when it is trivial",
  "An ideal is reported as the whole ring exactly when it contains a nonzero constant, however late and however indirectly the constant appears (as a generator, from two elements in one degree, in a later round), and then everything reduces to zero. Degree-zero elements of a module never make it trivial, and no ideal without a constant is reported trivial.",
  ["inputs", "histories", "schedules"],
  "all inputs with and without common zeros, all algorithms, all rounds at which the unit appears, compaction schedules",
  "Tests contain no inconsistent system.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h"],
  [("detection of a degree-zero element", "JanetPolyInt::setOne and its callers")],
  ["isOne(), size(), nf()"], GC_HOOK)
p("P16", "Normal forms against a basis decide membership and are unique",
  "Against a computed basis, the normal form of a polynomial is zero exactly when the polynomial belongs to the ideal or module. Two polynomials with a difference in the ideal have the same normal form up to a rational factor, equal to what an independent reduced Groebner basis gives, with no further reducible term and no common content.",
  ["inputs", "histories", "schedules"],
  "all members and non-members of all bases, between rounds of completion, compaction schedules",
  "Tests never reduce by a finished basis and compare with anything.",
  ["ginv/poly_int.h", "ginv/poly_int.cpp", "ginv/janet.cpp"],
  [("head and tail reduction through the divisor tree", "JanetPolyInt::nf, PolyInt::nf, PolyInt::nfTail")],
  ["the reduced polynomial"], GC_HOOK)
p("P17", "Submodules of free modules are completed correctly",
  "For vectors of polynomials with any component numbers the four algorithms compute a correct involutive basis of the generated submodule, component by component, for both ways of weighing position against term. Components never mix: a divisor is only found in the monomial's own component, and components without generators stay empty.",
  ["inputs", "histories", "schedules", "configurations"],
  "all generating sets with components growing over time, both position orders, four algorithms, rounds, compaction schedules",
  "No test computes a basis of a module.",
  ["ginv/poly_int.cpp", "ginv/poly_int.h", "ginv/poly.cpp", "ginv/monom.cpp", "ginv/wrap.cpp"],
  [("one divisor tree per component", "JanetPolyInt::setPos, find"), ("position/term comparators", "Poly::TOP*, POT*")],
  ["basis elements, find() per component"], GC_HOOK)
p("P18", "The Hilbert polynomial counts what the ideal leaves out",
  "The Hilbert polynomial reported for a basis, and for each component's divisor tree, agrees for all large degrees with the number of monomials up to that degree that lie outside the leading ideal. It is the same whichever algorithm, arrival order or round produced the basis.",
  ["inputs", "histories", "schedules"],
  "all bases of ideals reachable by any arrival order, algorithm and round, and all complete divisor trees",
  "Tests print one or two Hilbert polynomials without comparing them.",
  ["ginv/poly_int.cpp", "ginv/janet.cpp", "util/hilbertpoly.h", "util/hilbertpoly.cpp"],
  [("sum of binomials over cones", "JanetPolyInt::buildHP, Janet::buildHP"), ("rational coefficients", "HilbertPoly::binomial, add, sub, mult")],
  ["coefficients of the polynomial"], GC_HOOK)
p("P19", "Simultaneous sessions do not influence one another",
  "Several basis computations and polynomial pools alive in one process, advanced in any interleaving, each produce exactly the results, counters and answers they produce when run alone, including when one of them ends, becomes trivial or is abandoned halfway. Inputs handed to a session stay unchanged and may be destroyed afterwards.",
  ["schedules", "histories"],
  "all interleavings of the steps of two to four sessions, with ends and abandonment at any step, compaction schedules",
  "Tests run one computation at a time.",
  ["ginv/poly_int.h", "util/allocator.h", "util/integer.cpp", "util/hilbertpoly.cpp", "ginv/monom.cpp"],
  [("every object owns its arena; only counters and text buffers are shared", "Allocator statics, Integer::sBuffer, HilbertPoly::sBuffer")],
  ["each session's results, solo and interleaved"], GC_HOOK)
p("P20", "Results are reproducible and canonical in any environment",
  "The same inputs and algorithm give the same basis, in the same order, with the same counters, whatever the page size, the content of fresh memory, the compaction schedule, the clock or a failing diagnostic stream. The basis is canonical: ascending leading monomials without repetition, coefficients without common factor, and no tail term involutively reducible by the basis.",
  ["configurations", "schedules", "fault_sequences"],
  "all environments (page sizes, memory contents, clock behaviours, compaction schedules, broken diagnostic output) for every session",
  "A test runs in the one environment of its host.",
  ["ginv/poly_int.cpp", "util/allocator.cpp", "util/timer.cpp"],
  [("deterministic queues; final interreduction", "JanetPolyInt::algorithm*"), ("timers only measure", "Timer")],
  ["basis, counters"], GC_HOOK)
p("P21", "Timers measure exactly the started intervals",
  "A timer reports, for each of its three clocks, the sum of the intervals between each start or continuation and the stop that follows; starting resets, continuing accumulates, several timers and computations in between do not disturb one another. Reports only change at a stop or start.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of start/continue/stop over several timers, clocks that advance unevenly, stand still, jump, or are at any tick offset",
  "Tests sleep or print; the clock cannot be set.",
  ["util/timer.h", "util/timer.cpp"],
  [("tick differences from the process clock", "Timer::start, cont, stop")],
  ["userTime(), sysTime(), realTime()"])
p("P22", "Random monomials and permutations are always well formed",
  "Whatever the system's entropy source delivers, a random monomial has the configured number of variables, non-negative exponents and a total degree within the configured bounds, and a random permutation is a bijection after every step. Permuting a monomial moves exponents exactly as the permutation says and keeps degree and component; reconfiguring takes effect for all later monomials.",
  ["schedules", "histories", "fault_sequences"],
  "all entropy streams (including constant ones), all configurations and reconfigurations, all histories",
  "Tests draw from real entropy and print.",
  ["ginv/monom.cpp", "util/randpermutation.h", "util/randpermutation.cpp"],
  [("rejection-free sampling", "Monom::rand_next"), ("Durstenfeld shuffle", "RandPermutation::next")],
  ["exponents, permutation entries"])
p("P23", "Python views stay valid for as long as they are held",
  "Whatever order Python destroys objects in, every view obtained from a monomial, polynomial, basis, tree or timer through the Python module keeps showing the values it showed when taken, until it is dropped or its owner is deliberately changed. Iterators over a basis survive the basis variable going away. Once the last object and view of an owner are dropped, all memory it took is released.",
  ["schedules", "histories"],
  "all orders of dropping owners and views, with garbage collection at any moment and freed memory reused",
  "The binding has a demonstration script only; lifetime faults appear only for particular destruction orders.",
  ["cython/ginv.pyx"],
  [("views hold a reference to their owner", "const_integer, const_monom, const_poly_int, const_timer, janet")],
  ["values read through views"])
p("P24", "The Python module computes what the algebra defines",
  "Every arithmetic operator, conversion, comparison and query of the Python module on integers, monomials and polynomials gives the value the algebra defines and leaves its operands unchanged, and its basis objects give correct bases, normal forms and Hilbert polynomials in any arrival order and number of rounds.",
  ["histories", "schedules", "inputs"],
  "all histories of operators and sessions in one interpreter, with objects dropped and collected at any moment",
  "The binding has no automated test.",
  ["cython/ginv.pyx", "ginv/poly_int.cpp", "ginv/monom.cpp"],
  [("wrappers that copy then operate in place", "poly_int, monom operators"), ("basis wrapper", "janet_poly_int")],
  ["values through the module"])
p("P25", "The pure Python package completes polynomial ideals correctly",
  "The two completion procedures of the pure Python package, with the tree and the cached tree, give involutive bases that generate exactly the input ideal, with correct non-multiplicative sets, a correct Groebner subset and a correct Hilbert polynomial. This holds in any arrival order, for repeated, redundant, constant and zero input.",
  ["inputs", "histories", "configurations"],
  "all generating sets, arrival orders, both procedures, both trees, admissible orders",
  "The package has notebooks only.",
  ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/monomial.py", "pyginv/polynomial.py"],
  [("completion loops", "ginvMin, ginvBlockLow"), ("divisor tree and cache", "Janet, JanetCache")],
  ["basis, GB(), HP(), find"])
p("P26", "The pure Python package completes modules, PDE and difference systems",
  "For vectors of polynomials, linear partial differential systems with constant coefficients and linear difference schemes, the package's completion with a forest of trees gives an involutive basis of exactly the generated module, with correct non-multiplicative sets, a correct Groebner subset and a correct Hilbert polynomial, in any arrival order.",
  ["inputs", "histories", "configurations"],
  "all generating systems over one to three unknowns, arrival orders, position/term orders",
  "The package has notebooks only.",
  ["pyginv/ginv.py", "pyginv/janet.py", "pyginv/polynomial.py"],
  [("one tree per component", "Forest"), ("criteria", "Invdiv crit1/crit2")],
  ["basis, GB(), HP()"])
p("P27", "The pure Python package never changes its input and repeats itself",
  "A completion leaves the polynomials it was given, and everything built from them, unchanged, and two computations in one interpreter do not influence each other. The result depends only on the input: not on the clock, the hash seed, verbosity or earlier computations.",
  ["schedules", "histories", "configurations"],
  "all interleavings of computations sharing polynomials, all clock behaviours, hash seeds and verbosity levels",
  "The package has notebooks only.",
  ["pyginv/ginv.py", "pyginv/polynomial.py", "pyginv/janet.py"],
  [("copies of the input", "Wrap"), ("class-level settings", "Monomial, Poly")],
  ["input polynomials and results across runs"])
p("P28", "Monomials stay exact and consistently ordered under every history",
  "Products, quotients, powers, prolongations, divisibility and common multiples of monomials and vector monomials give exactly the exponents, degree and component the algebra defines, into fresh, reused, moved, swapped or compacted objects, and leave every other monomial unchanged. Each order (lexicographic, degree-lexicographic, alternative) compares any two monomials totally, transitively and compatibly with multiplication, and its two-product form agrees with comparing the products. Equality holds exactly for the same exponents in the same component.",
  ["histories", "inputs", "fault_sequences"], "every history of operations over monomials living in any number of arenas, with any compaction, memory content and refusal of memory",
  "Random samples in the tests compare a few fresh monomials; they never reuse, move or compact them mid-history and check few vector monomials.",
  ["ginv/monom.h", "ginv/monom.cpp"],
  [("comparators", "Monom::lex, deglex, alex, cmp"), ("arithmetic", "Monom::mult, div, pow, setMult, prolong")], ["exponents, degree, component, comparison and divisibility results"])
p("P38", "Boolean monomials are exact and consistently ordered under every history",
  "A Boolean monomial is a set of variables kept in descending order: products, products by one variable, quotients, copies, assignments and swaps give exactly the variables the algebra of idempotent variables defines, into fresh or reused objects in any arena, and leave every other monomial unchanged. Divisibility is inclusion, monomials are ordered by degree and then by the smallest variable in which they differ, and all their memory goes back to their arena.",
  ["histories", "inputs"], "every history of operations over Boolean monomials living in two arenas",
  "No test touches the class.",
  ["ginv/bmonom.h", "ginv/bmonom.cpp"],
  [("merge of descending variable lists", "BMonom constructors, BMonom::div"), ("order and divisibility", "BMonom::compare, BMonom::divisible")], ["variables, degree, order and divisibility of each monomial", "memory in use"])
p("P29", "Rendered diagrams show the structure they are drawn from",
  "Drawing a red-black tree, a divisor tree, a forest or the tree of a basis, in C++ or in the pure Python package, writes a diagram with one node per element and the right edges and labels, and changes nothing in the structure, also when the layout or the file is refused.",
  ["inputs", "histories", "fault_sequences"], "all structures at every point of their history, refusals of the layout or of the file",
  "Graph tests only produce files for a human to look at.",
  ["util/rbtree.h", "ginv/janet.h", "ginv/gb.h", "pyginv/janet.py"],
  [("graphviz emission", "draw functions")], ["the rendered file"])
p("P30", "Pure Python polynomial arithmetic is exact and leaves operands unchanged",
  "Sums, differences, products, powers, scalar multiples, S-polynomials, reductions, normal forms and primitive parts of the pure Python package's polynomials are exactly what the algebra defines, for polynomials of a ring and of a module and in every order the package offers. Terms stay strictly ordered without zero coefficients. An operation changes only the polynomial it is invoked on to change; every other polynomial in use, also one built from the same terms, keeps its value.",
  ["inputs", "histories"], "all histories of operations over polynomials that share terms",
  "The package's modules print a few fixed expressions; nothing compares values or checks operands afterwards.",
  ["pyginv/polynomial.py", "pyginv/monomial.py"],
  [("arithmetic and reductions", "Poly"), ("monomials and orders", "Monom")], ["value of every live polynomial after every operation"])
p("P31", "The pure Python package completes systems with symbolic coefficients",
  "Linear differential systems whose coefficients are polynomials in the variables, with or without right-hand sides, and ideals, modules and difference schemes whose coefficients contain parameters are completed to an involutive basis: every element follows from the system, every input reduces to zero, all integrability conditions are found, non-multiplicative sets, Groebner subset and Hilbert polynomial are right, and no term with a zero coefficient, fraction or common factor stays. Normal forms modulo the result are exact. This holds in any arrival order and after interrupted or interleaved completions, and no input changes.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all generic systems with symbolic coefficients, in every history of completions, interrupts and failing output",
  "No test of the repository completes a system with symbolic coefficients; the notebooks show single examples by eye.",
  ["pyginv/polynomial.py", "pyginv/ginv.py", "pyginv/janet.py"],
  [("differential prolongation and reduction", "PolyDiff"), ("normal forms of coefficients", "Poly.reduction, redRat, cancel, pp"), ("completion", "ginvBlockLow, ginvMin"), ("trees per function", "Forest")], ["basis, counters and normal forms after every step, all earlier results"])
p("P32", "Texts, constructors and expressions denote the elements they come from",
  "An element built by derivative or shift constructors, from a symbolic expression, from monomials or by arithmetic with symbolic coefficients is exactly the one described. Prolongation of a differential element is its exact derivative. Every text, LaTeX form and expression the pure Python package writes for an element denotes that element, and the enumeration of the monomials of a degree lists each once. None of this depends on the names of variables and functions, nor on other spaces or computations used before.",
  ["inputs", "histories"], "all elements, orders, names and histories of spaces in one interpreter",
  "The package's modules print a few fixed examples; nothing reads them back or compares them.",
  ["pyginv/polynomial.py", "pyginv/monomial.py"],
  [("constructors and conversions", "PolyDiff.df, PolySchem.T, PolyDiff.diff2poly"), ("texts", "Monom.df, df_sympy, df_latex, T, T_latex, latex, Poly.__str__"), ("derivation", "PolyDiff.prolong"), ("enumeration", "Monom.gradus")], ["value of every live element after every step", "texts read back"])
p("P33", "Texts the C++ library writes denote the objects they are written for",
  "The text the C++ library writes to a stream for a monomial, polynomial, basis element, permutation, Hilbert polynomial or timer, and the text of an integer in any base, denotes exactly that object, zero included, whatever was written before and whatever compactions happen in between. Writing changes neither the object nor the stream's formatting. A stream that refuses output at any point, reporting it silently or by an exception, has received a beginning of the right text and leaves the object and the memory accounting intact.",
  ["histories", "fault_sequences"],
  "all objects and histories of changes, compactions and writes, every stream formatting that does not concern integers, streams that refuse after any number of characters",
  "Tests print a few objects to the terminal and never read a text back; no test writes to a stream that fails.",
  ["ginv/monom.cpp", "ginv/poly_int.cpp", "ginv/wrap.cpp", "util/hilbertpoly.cpp", "util/randpermutation.cpp", "util/timer.cpp", "util/integer.cpp"],
  [("stream output", "operator<< of Monom, PolyInt, Wrap, HilbertPoly, RandPermutation, Timer"), ("shared text buffer", "Integer::get_str")],
  ["characters a stream received", "object after writing"])
p("P34", "With assertions enabled no legitimate use trips one",
  "In a build with assertions enabled (no NDEBUG), no assertion of the library fails and nothing aborts on any legitimate use: whatever is done with arenas, containers, integers, monomials, polynomials, modules, divisor trees, completions, bases, Hilbert polynomials, random objects and diagrams within their documented preconditions, including trivial ideals, zero values, vector monomials, compaction at any moment and refused memory.",
  ["histories", "configurations", "fault_sequences"],
  "all histories and environments the other properties of the C++ library range over",
  "The project builds and tests with NDEBUG only, so none of its some 300 assertions is ever evaluated.",
  ["util", "ginv"],
  [("assertions", "assert() in all classes, assertValid, assertT, assertSort"), ("involutive insertion", "Janet::insert"), ("limb reservation", "Integer::reallocate")],
  ["failing assertions", "abnormal end of the process"], GC_HOOK)
p("P35", "Pure Python monomials are exact, immutable and consistently ordered",
  "Products, quotients, powers, common multiples and divisors, prolongations, expansions and divisibility of the pure Python package's monomials, of a ring and of a module, give exactly the exponents, degree and component the algebra defines. Comparison in every order the package offers is a total order that agrees with equality, hashing, sorting and sets and that multiplication preserves. Enumerating a degree gives each monomial of it once. Texts denote the monomial. No operation, completed or interrupted, changes a monomial in use, nor the variables of the space.",
  ["inputs", "histories", "fault_sequences"], "all histories of operations over pools of monomials of rings and modules, all orders, switches of the order, spaces defined anew, interrupts at any call",
  "The package prints a few fixed monomials when run as a script; nothing compares them with the definition, none is interrupted.",
  ["pyginv/monomial.py"],
  [("arithmetic", "Monom.__mul__, __truediv__, __pow__, lcm, gcd, prolong"), ("orders", "Monom.cmp: lex, deglex, POT and TOP variants"), ("enumeration", "Monom.gradus"), ("identity", "Monom.__eq__, __hash__")],
  ["value of every live monomial after every operation"])
p("P36", "Pure Python divisor trees follow the Janet division under every history",
  "A divisor tree of the pure Python package, plain, caching, or one of a forest, holds exactly the elements inserted and not displaced since, hands back exactly the elements a new one displaces, marks a variable non-multiplicative exactly when the Janet division says so, and a lookup returns the one element that involutively divides, or nothing; a cached multiple is the multiple asked for. The text of an element shows the leading monomial, marks, ancestor and polynomial it has. Prolongations selected by degree, by bound or altogether are exactly the non-multiplicative ones not drawn before, with the right ancestor. The Hilbert polynomial counts the monomials outside the tree's cones, the counts and the Groebner part agree. Several trees do not influence one another and an interrupted question changes nothing.",
  ["histories", "schedules", "fault_sequences"], "all histories of insertions in any order, prolongations and questions over several trees, interrupts at any call",
  "The package builds two fixed trees when run as a script and checks one degree; arrival order, displacement and marks are never compared with the definition.",
  ["pyginv/janet.py", "pyginv/monomial.py"],
  [("insertion and displacement", "Janet.insert"), ("lookup", "Janet.findWrap, find, JanetCache.find, Forest.find"), ("prolongation", "prolongDeg, prolongMonom, prolongAll, degMinProlong"), ("counting", "Janet.HP, CombRepet, count")],
  ["elements, marks, ancestors and lookups of every live tree after every operation"])
p("P37", "Every build configuration computes the same, exactly and without leaks",
  "Built without the arena allocator (USE_ALLOCATOR off), without arena integers (USE_INTEGER_ALLOCATOR off) or without both, the C++ library keeps the guarantees of the standard build: the same exact values for integers, monomials, polynomials, divisor trees, completions, bases and Hilbert polynomials, the same containers, texts and diagrams, no access outside live memory, everything obtained returned exactly once, memory in use accounted exactly, a limit and a refused request reported the same way.",
  ["histories", "configurations", "fault_sequences"],
  "the three other settings of the two allocator options, with all histories, environments and faults the properties of the standard build range over (refusals only where GMP does not own the limbs: GMP ends the process when it is refused memory)",
  "Only the standard configuration is ever built and tested.",
  ["util/allocator.h", "util/allocator.cpp", "util/integer.h", "util/CMakeLists.txt"],
  [("allocation without arenas", "Allocator::allocate, deallocate, swap, GC<T>"), ("integers owned by GMP", "class Integer, #else branch"), ("build options", "USE_ALLOCATOR, USE_INTEGER_ALLOCATOR")],
  ["everything the borrowed property observes", "blocks and limbs outstanding at the end"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
