"""Registry: which harness binaries decide which property, with which case counts."""

CF, CD = "std::complex<float>", "std::complex<double>"


def t(sym, scalar, extra=(), name=None, scale=1):
    short = {"float": "f", "double": "d", CF: "cf", CD: "cd"}[scalar]
    return {"name": name or (sym.replace("Symmetry", "") + "_" + short),
            "defs": ["SYM=" + sym, "SCALAR=" + scalar, "TAT_NOTHING_BITS=7"] + list(extra), "scale": scale}


SYMS = ["NoSymmetry", "Z2Symmetry", "U1Symmetry", "FermiSymmetry", "FermiZ2Symmetry", "FermiU1Symmetry"]
ALL24 = [t(s, c) for s in SYMS for c in ("double", CD, "float", CF)]
CORE8 = [t("NoSymmetry", "double"), t("NoSymmetry", CF), t("Z2Symmetry", "float"), t("U1Symmetry", CD),
         t("FermiSymmetry", "double"), t("FermiSymmetry", CF), t("FermiZ2Symmetry", CD), t("FermiU1Symmetry", "double")]
SYM7 = CORE8[2:] + [t("U1Symmetry", "double")]
SMALLCACHE = ["TAT_L1_CACHE=48"]
CACHE2 = [t("NoSymmetry", "double", SMALLCACHE, "No_d_smallcache"), t("FermiSymmetry", "double", SMALLCACHE, "Fermi_d_smallcache")]

TARGETSETS = {
    "core": {"quick": CORE8, "thorough": ALL24},
    "core+cache": {"quick": CORE8 + CACHE2, "thorough": ALL24 + CACHE2},
    "symmetric": {"quick": SYM7, "thorough": [x for x in ALL24 if not x["name"].startswith("No_")]},
    "nosym": {"quick": [x for x in ALL24 if x["name"].startswith("No_")], "thorough": [x for x in ALL24 if x["name"].startswith("No_")]},
}

PROPS = {}


def prop(pid, rule, sources, assumptions=()):
    PROPS[pid] = {"rule": rule, "sources": sources, "assumptions": list(assumptions)}


def source(src, targets, quick, thorough, **kw):
    d = {"src": [src] if isinstance(src, str) else src, "targets": targets, "cases": {"quick": quick, "thorough": thorough}}
    d.update(kw)
    return d


EXACT = "tensor entries are small integers, so all four scalar types are compared exactly"

prop("C01",
     "Random rank 0-8 tensors (all symmetries, random sectors/dims/arrows, zero dimensions, blocks above the cache threshold) and random target "
     "orders / rename maps / reversals against an elementwise signed permutation; non-trivial: order or names really change, more than one non-zero "
     "entry and, for fermionic kinds, an odd sector is present.",
     [source("p_transpose.cpp", "core+cache", 30000, 300000, shards={"thorough": 2})], [EXACT])
prop("C02",
     "Random tensors and random disjoint merge groups / split plans (absent names, empty groups, unused sectors, mixed arrows, all parity options) against "
     "an explicit sector-sorted fused layout; non-trivial: some group has at least two edges, more than one non-zero entry and an odd sector for fermionic kinds.",
     [source("p_merge.cpp", "core", 30000, 250000, shards={"thorough": 2})], [EXACT])
prop("C03",
     "Random combinations of cut, rename, split, reverse, transpose and merge with random parity options, applied in one call and compared with the "
     "elementary steps performed one after another by the model; non-trivial: at least two different features used and more than one non-zero result entry.",
     [source("p_edgeop.cpp", "core", 40000, 300000, shards={"thorough": 2})], [EXACT])
BOSE = {"quick": [t("Z2Symmetry", "float"), t("Z2Symmetry", CD), t("U1Symmetry", "double"), t("U1Symmetry", CF)],
        "thorough": [x for x in ALL24 if x["name"][:2] in ("Z2", "U1")]}
FERMI = {"quick": [t("FermiSymmetry", "double"), t("FermiSymmetry", CF), t("FermiZ2Symmetry", CD), t("FermiZ2Symmetry", "float"),
                   t("FermiU1Symmetry", "double"), t("FermiU1Symmetry", CF)],
         "thorough": [x for x in ALL24 if x["name"].startswith("Fermi")]}
prop("C04",
     "Random pairs of plain tensors with 0-3 contracted name pairs, 0-2 shared uncontracted names, absent names, zero dimensions and matrices up to 24x24x..., "
     "in random edge orders, against the elementwise sum; non-trivial: something is contracted or shared and the result has more than one non-zero entry.",
     [source("p_contract.cpp", "nosym", 25000, 250000, defs=["FUSE"], shards={"quick": 2, "thorough": 4})], [EXACT])
prop("C05",
     "Random Z2/U1 tensor pairs with matching, partially matching and foreign sectors, 0-3 contracted pairs, random edge orders, against the sector-wise sum; "
     "non-trivial: something is contracted and the result has more than one non-zero entry.",
     [source("p_contract.cpp", BOSE, 30000, 250000, shards={"quick": 2, "thorough": 4})], [EXACT])
prop("C06",
     "Random fermionic tensor pairs (particle numbers -2..2, random arrows) in random edge orders against the Grassmann (graded) sum, plus operand exchange; "
     "non-trivial: an odd sector is contracted and the result has more than one non-zero entry.",
     [source("p_contract.cpp", FERMI, 30000, 250000, shards={"quick": 1, "thorough": 4})], [EXACT])
prop("C07",
     "Random tensors with 1-3 traced pairs (either order inside a pair, sectors known to one side only, charges -2..2, zero dimensions) and 0-3 free edges in random "
     "order, against the (graded) diagonal sum, pair-by-pair tracing and the trace of an outer product; non-trivial: result has non-zero entries.",
     [source("p_trace.cpp", "core", 25000, 250000, shards={"thorough": 2})], [EXACT])
LAPACK = "floating point comparisons use 1e-11 (double) / 3e-4 (single) times the tensor norm, far above rounding and far below any structural error"
prop("C08",
     "Random tensors (generic, integer with ties, rank deficient, sparse, zero) split at a random subset of edges, with and without truncation: U S V recomposes, U and V "
     "are isometric, S is sorted, extents match, truncation keeps exactly the largest values across sectors and its error is the discarded weight; non-trivial: more "
     "than one value kept and both sides own an edge.",
     [source("p_svd.cpp", "core", 25000, 200000, shards={"thorough": 2})], [LAPACK])
prop("C09",
     "Random tensors (generic, integer, rank deficient, sparse) split at a random subset of edges naming either the Q or the R side: Q R recomposes (by the model and by the "
     "library), Q is isometric, the common edge is minimal, R of matrices is triangular; non-trivial: more than one non-zero entry and both sides own an edge.",
     [source("p_qr.cpp", "core", 30000, 200000, shards={"thorough": 2})], [LAPACK])
prop("C10",
     "Random tensor/tensor, tensor/number, number/tensor, in-place and aliased arithmetic, with reordered edges and (out of place) different sector sets, against the entrywise "
     "model; incompatible shapes must raise; non-trivial: operands have more than one non-zero entry.",
     [source("p_scalar.cpp", "core", 40000, 300000, shards={"thorough": 2})], [EXACT])
prop("C11",
     "Random histories of 2-14 steps over a pool of up to 6 handles: copies, moves, swaps, eleven storage-sharing operations, derived values, thirteen kinds of in-place "
     "writes (some through aliases or temporaries), reloads; every handle is compared with its own dense model value after every step; non-trivial: a write hits a "
     "tensor whose storage is shared.",
     [source("p_history.cpp", "core", 30000, 250000, shards={"thorough": 2})], [EXACT])
prop("C12",
     "Random tensors: every element by name and position, every block, writes through at/block with a sharing sibling, five norms, fills, maps, one() and scalar conversion "
     "against the dense model; non-trivial: more than two stored elements.",
     [source("p_access.cpp", "core", 100000, 300000, shards={"thorough": 2})], [EXACT])
prop("C13",
     "Random tensors: conjugate against the model, twice, contracted with the original over one edge and over all edges, and after reordering; non-trivial: more than one "
     "non-zero entry and an odd sector for fermionic kinds.",
     [source("p_conj.cpp", "core", 40000, 300000, shards={"thorough": 2})], [EXACT])
prop("C14",
     "Random shrink positions (with and without a new edge, arrow choice) and expand plans (with and without a replaced edge) against contraction with a one-hot tensor, direct "
     "slicing and round trips; non-trivial: something is fixed or added and the result is non-zero.",
     [source("p_shrink.cpp", "core", 40000, 300000, shards={"thorough": 2})], [EXACT])
prop("C15",
     "Random tensors over 0-3 paired edges (1 pair for fermionic kinds) in random edge order: identity against the paired diagonal, exponential (steps 10-14 and the default) against "
     "a scaled extended-precision Taylor series of the paired matrix; non-trivial: matrix larger than 1x1 with several non-zero entries.",
     [source("p_exp.cpp", "core", 30000, 120000, shards={"thorough": 2})],
     ["exponentials are compared within 1e-10 (double) / 2e-4 (single) times exp(norm); default step only for small norms within 1e-3"])
prop("C16",
     "Random tensors, edges and singular values (powers of two, extra sectors, extents up to 18): multiple against the per-sector scaling, multiply/divide round trip, refusal of wrong "
     "lengths, directions and sectors, and (U S) V = U (S V) = T after svd; non-trivial: several non-zero entries.",
     [source("p_multiple.cpp", "core", 60000, 250000, shards={"thorough": 2})], [EXACT, LAPACK])
prop("C17",
     "Random tensors (both name types, odd names, zero extents, empty tensors) and singular values through dump/load, streams, separate metadata/data and concatenated streams, arbitrary bit "
     "patterns, and every kind of truncation; non-trivial: several non-zero entries.",
     [source("p_binary.cpp", "core", 80000, 200000, shards={"thorough": 2})], [EXACT])
prop("C18",
     "Random tensors (both name types, any printable name, zero extents, wide exponents) and singular values printed (with or without colour codes, with enough digits) and read back, "
     "several per stream, plus truncated texts; non-trivial: several non-zero entries.",
     [source("p_text.cpp", "core", 150000, 400000, shards={"thorough": 2})],
     ["numbers are printed with max_digits10 digits unless they are small integers"])
prop("C19",
     "Random names (equality, order, strings), name tables moved between differently ordered tables together with tensors, and the same computation with FastName and std::string names; "
     "non-trivial: more than two names / rank above one.",
     [source("p_name.cpp", "core", 20000, 150000, shards={"thorough": 2})], [EXACT])

prop("C20",
     "Random histories of 1-24 steps over lazy graphs of roots, cached nodes (two value types) and paths in three graphs: set, read, derive, forget handles, take and restore snapshots, "
     "throwing functions; every read is compared with a recomputation from the current roots and with the number of evaluations needed; non-trivial: at least one read and one change.",
     [source("p_lazy.cpp", [{"name": "lazy", "defs": [], "libs": []}], 700000, 3000000, shards={"quick": 8, "thorough": 8})])


def mpi(sym, scalar, n):
    x = t(sym, scalar, ["TAT_USE_MPI"])
    x["name"] += "_np%d" % n
    x["prefix"] = ["mpirun", "--oversubscribe", "-np", str(n)]
    x["cxx"] = "mpic++"
    x["nprocs"] = n
    return x


prop("C22",
     "Random tensors of all 16 ordered pairs of scalar types: conversion, contraction and + - * / (tensor/tensor, tensor/number, in place) against the dense model in the common type; "
     "non-trivial: several non-zero entries and two different types.",
     [source("p_mixed.cpp", {"quick": [{"name": s.replace("Symmetry", ""), "defs": ["SYM=" + s, "TAT_NOTHING_BITS=7"]} for s in SYMS],
                             "thorough": [{"name": s.replace("Symmetry", ""), "defs": ["SYM=" + s, "TAT_NOTHING_BITS=7"]} for s in SYMS]},
             120000, 300000, shards={"quick": 1, "thorough": 4})], [EXACT])


def strict(sym, scalar):
    x = t(sym, scalar)
    x["defs"] = ["SYM=" + sym, "SCALAR=" + scalar, "TAT_ERROR_BITS=7"]
    x["name"] += "_strict"
    return x


STRICT = [strict("NoSymmetry", "double"), strict("U1Symmetry", "float"), strict("FermiU1Symmetry", CD), strict("FermiSymmetry", "double")]
prop("C23",
     "Random invalid requests (wrong or repeated names, mismatched extents, sectors or directions in contract, trace, scalar arithmetic, expand; positions outside the edge; missing modes; reading a "
     "number from a tensor with several elements; misspelt names under strict settings): each must raise, leave the operands as they were and leave the library working; non-trivial: every accepted case.",
     [source("p_refuse.cpp", {"quick": CORE8 + STRICT, "thorough": ALL24 + STRICT}, 40000, 300000, shards={"thorough": 2})], [EXACT])


def cfg(base, tag, *defs, **kw):
    x = dict(base)
    x["name"] = base["name"] + "_" + tag
    x["defs"] = list(base["defs"]) + list(defs)
    x.update(kw)
    return x


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CRASH = ["PBT_ONLY_CRASHES", "NO_MIXED"]
PLAIN = {"name": "plain", "defs": ["TAT_NOTHING_BITS=7"]}


def asan(sym, scalar, scale=1.0):
    return cfg(t(sym, scalar), "asan", *CRASH, flags=SAN, scale=scale)


def asan_pmr(sym, scalar, scale=1.0):
    return cfg(t(sym, scalar), "asan_heap", "CHECKED_PMR", *CRASH, flags=SAN, scale=scale, optional=True)


def leak(sym, scalar):
    return cfg(t(sym, scalar), "leak", "PBT_LEAKCHECK", *CRASH, scale=2)


def memcheck(sym, scalar):
    return cfg(t(sym, scalar), "memcheck", *CRASH, flags=["-g"], scale=0.06,
               prefix=["valgrind", "-q", "--error-exitcode=9", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--leak-check=no", "--max-stackframe=8000000"])


prop("C24",
     "The generated cases of C01-C19, C20 and C23 plus histories of nested scratch-memory scopes, run under AddressSanitizer and UndefinedBehaviourSanitizer (also with every scratch object in its "
     "own heap block), under valgrind memcheck, and with counted allocations to see whether repeating a case leaves memory behind; only memory errors count here; non-trivial: as in those properties.",
     [source("p_all.cpp", {"quick": [asan("NoSymmetry", "double"), asan("U1Symmetry", CD), asan_pmr("FermiU1Symmetry", "double"), asan_pmr("NoSymmetry", CF), leak("FermiZ2Symmetry", CD),
                                     memcheck("FermiSymmetry", "double")],
                           "thorough": [f(s, c) for f in (asan, asan_pmr, leak, memcheck) for s, c in (("NoSymmetry", "double"), ("Z2Symmetry", CF), ("U1Symmetry", CD), ("FermiSymmetry", "float"),
                                                                                                          ("FermiZ2Symmetry", CD), ("FermiU1Symmetry", "double"))]},
             20000, 150000, shards={"quick": 2, "thorough": 2}),
      source("p_pmr.cpp", [cfg(PLAIN, "asan", flags=SAN)], 12000, 100000, shards={"quick": 2, "thorough": 4}),
      source("p_lazy.cpp", [cfg({"name": "lazy", "defs": [], "libs": []}, "asan", "PBT_ONLY_CRASHES", flags=SAN)], 30000, 300000, shards={"quick": 2, "thorough": 4})],
     ["errors inside the BLAS/LAPACK libraries themselves are not looked for"])

TINY = ["TAT_L1_CACHE=16", "TAT_L2_CACHE=64", "TAT_L3_CACHE=256"]
CONFIGS = [cfg(t("NoSymmetry", "double"), "simple", "TAT_USE_SIMPLE_NOSYMMETRY"),
           cfg(t("NoSymmetry", CD), "simple_matrix", "TAT_USE_SIMPLE_NOSYMMETRY", "TAT_USE_SINGULAR_MATRIX"),
           cfg(t("NoSymmetry", "float"), "simple_batch", "TAT_USE_SIMPLE_NOSYMMETRY", "TAT_USE_MKL_GEMM_BATCH", "TAT_USE_TIMER"),
           cfg(t("U1Symmetry", CF), "matrix", "TAT_USE_SINGULAR_MATRIX"),
           cfg(t("FermiU1Symmetry", "double"), "matrix_strname", "TAT_USE_SINGULAR_MATRIX", "TAT_USE_SIMPLE_NAME"),
           cfg(t("FermiSymmetry", "double"), "timer_tiny", "TAT_USE_TIMER", *TINY),
           cfg(t("FermiZ2Symmetry", CD), "batch", "TAT_USE_MKL_GEMM_BATCH"),
           cfg(t("Z2Symmetry", "double"), "default_tiny", "TAT_USE_VALID_DEFAULT_TENSOR", *TINY)]
MORE_CONFIGS = [cfg(t(s, c), tag, *d) for s, c in (("NoSymmetry", "double"), ("NoSymmetry", CF), ("Z2Symmetry", CD), ("U1Symmetry", "double"), ("FermiSymmetry", CF), ("FermiZ2Symmetry", "float"),
                                                   ("FermiU1Symmetry", CD))
                for tag, d in (("simple_matrix", ["TAT_USE_SIMPLE_NOSYMMETRY", "TAT_USE_SINGULAR_MATRIX"]), ("strname", ["TAT_USE_SIMPLE_NAME"]), ("batch", ["TAT_USE_MKL_GEMM_BATCH", "TAT_USE_TIMER"]),
                               ("default_tiny", ["TAT_USE_VALID_DEFAULT_TENSOR"] + TINY))]
prop("C25",
     "The generated cases of C01-C19, C22 and C23 against the same reference model with the library compiled in eight other configurations (simple storage without symmetry, singular matrices, string names, "
     "timers, valid default tensors, tiny cache sizes, batched matrix products through a stand-in for MKL); non-trivial: as in those properties.",
     [source("p_all.cpp", {"quick": CONFIGS, "thorough": CONFIGS + MORE_CONFIGS}, 60000, 600000, shards={"quick": 2, "thorough": 2})],
     [EXACT, LAPACK, "MKL's batched gemm is replaced by a stand-in written from its documentation"])


def lat(scalar, *tests, n=0, scale=1):
    x = t("NoSymmetry", scalar, ["TAT_USE_MPI"] + ["TEST_" + y for y in tests], scale=scale)
    x["cxx"] = "mpic++"
    x["name"] += "_" + "_".join(tests).lower()
    if n:
        x["name"] += "_np%d" % n
        x["prefix"] = ["mpirun", "--oversubscribe", "-np", str(n)]
        x["nprocs"] = n
    return x


def lats(*tests):
    return {"quick": [lat(c, *tests) for c in ("double", CD, "float")], "thorough": [lat(c, *tests) for c in ("double", CD, "float", CF)]}


SQUARE = "states of all lattices are compared within 1e-9 (double) / 1e-3 (single) of the dense model relative to the largest entry or the natural scale of the value"
prop("C26",
     "Random lattices of up to 6 sites of extent 2-4 with random one- to three-site operators on any sites in any order: exact updates, observables (also complex ones on real states), energies and the "
     "bulk setters against dense vectors and matrices; non-trivial: more than one site or term.",
     [source("p_square.cpp", lats("EXACT"), 60000, 400000, shards={"quick": 2, "thorough": 2})], [SQUARE])
prop("C27",
     "Random networks of up to 6 sites with random bonds, environments and terms, converted between the exact, simple-update and sampling forms and written to and read from files; the represented state, terms, "
     "dimensions and spins are compared with dense contraction; non-trivial: more than one site with bonds larger than one.",
     [source("p_square.cpp", lats("NETWORK"), 30000, 200000, shards={"quick": 2, "thorough": 2})], [SQUARE])
prop("C28",
     "Random histories over one to several sampling lattices: spins set, reset, read with and without replaced sites (all hints), holes read, lattices copied, moved and assigned, tensors refilled, the cut changed; every "
     "value read is compared with dense contraction of the current spins; a cut is exact from the full bond dimension on; non-trivial: at least one read after a change.",
     [source("p_square.cpp", lats("SPIN"), 40000, 300000, shards={"quick": 2, "thorough": 2})], [SQUARE])
prop("C29",
     "Random lattices, terms and observables: ergodic averages against dense expectation values; each Markov step's values, gradient and returned amplitude against the current spins; moves stay inside connected "
     "configurations; long chains against the squared amplitudes, exact energy and gradient within six standard errors plus a margin; non-trivial: more than one configuration has weight.",
     [source("p_square.cpp", lats("SAMPLING"), 8000, 80000, shards={"quick": 2, "thorough": 2}),
      source("p_square.cpp", lats("STATISTICS"), 24, 600, shards={"quick": 1, "thorough": 2})],
     [SQUARE, "statistical cases (2400 on the unchanged tree without an alarm) accept six standard errors over 30-40 batches plus a fixed margin"])
prop("C30",
     "Random lattices of up to 4 sites and random one- and two-site terms in either site order, evolved by simple update on 1-4 MPI ranks with bonds large enough not to truncate, against the dense product of the same exponentials; "
     "truncated updates keep the requested bond, and all ranks hold the same state; non-trivial: at least one two-site term.",
     [source("p_square.cpp", {"quick": [lat("double", "UPDATE"), lat(CD, "UPDATE"), lat("float", "UPDATE"), lat("double", "UPDATE", n=2, scale=0.2), lat(CD, "UPDATE", n=3, scale=0.1), lat("double", "UPDATE", n=4, scale=0.1)],
                              "thorough": [lat(c, "UPDATE", n=n, scale=1 if n < 2 else 0.3) for c in ("double", CD, "float", CF) for n in (0, 2, 3, 4, 5)]}, 20000, 150000)],
     [SQUARE])


PYSYMS = ("No", "Z2", "U1", "Fermi", "FermiZ2", "FermiU1")


def pys(sym, tests):
    return {"name": "_".join([sym] + tests).lower(), "defs": ["TEST_" + x for x in tests], "prepare": ["pytat:" + sym], "env": {"PY_SYM": sym},
            "flags": ["-isystem", "/usr/include/python3.12", "-fvisibility=hidden"], "libs": ["-lpython3.12"]}


def pympi(sym, n):
    x = pys(sym, [])
    x["name"] += "_np%d" % n
    x["prefix"] = ["mpirun", "--oversubscribe", "-np", str(n)]
    x["cxx"] = "mpic++"
    x["nprocs"] = n
    return x


prop("C21",
     "Random scripts run by 1-7 ranks under the real MPI runtime: broadcasts and reductions with any root of tensors (including above the eager limit), lists, numbers and strings, schedules of 1-6 "
     "point-to-point messages, out-of-order gathers, barriers with random delays, rank-selected output, invalid roots, and the same through the Python module; every rank checks what it got; non-trivial: more than one rank and "
     "a non-trivial payload.",
     [source("p_mpi.cpp", {"quick": [mpi("NoSymmetry", "double", 1), mpi("NoSymmetry", "double", 2), mpi("FermiU1Symmetry", CD, 3), mpi("NoSymmetry", CF, 4), mpi("U1Symmetry", "double", 5),
                                     mpi("FermiSymmetry", "float", 6), mpi("Z2Symmetry", CD, 7)],
                           "thorough": [mpi(s, c, n) for s in SYMS for c in ("double", CF) for n in (2, 3, 4, 5, 6, 7, 8)]}, 6000, 12000),
      source("p_pympi.cpp", {"quick": [pympi("FermiU1", 2), pympi("No", 3), pympi("U1", 5)], "thorough": [pympi(s, n) for s in PYSYMS for n in (1, 2, 3, 4, 5, 7)]}, 2000, 6000)],
     [EXACT, "all ranks share one table of interned names (interned names travel as table positions); string names are tested without that"])

PYTHON = "the module is built once per symmetry (with all scalar types) by narrowing the list of tensor types in PyTAT.cpp; only the interpreter of this machine is used"
prop("C31",
     "The tensor operations called through the Python module, with every accepted spelling of names, symmetries, edges and maps, for all scalar types and symmetries, against the same reference model; "
     "non-trivial: as for the operation (more than one non-zero entry, names or order really change).",
     [source("p_python.cpp", [pys(x, ["OPS"]) for x in PYSYMS], 14000, 150000, shards={"thorough": 2})], [EXACT, LAPACK, PYTHON])
prop("C32",
     "Blocks as numpy arrays in any order of names (read, written, bulk assigned), elements, data, pickling, dump/load, text forms, numbers, symmetries, edges, names, selection of tensor types and seeded random numbers of the "
     "Python module against the reference model and Python's own rules; non-trivial: more than one non-zero entry or value.",
     [source("p_python.cpp", [pys(x, ["SURFACE"]) for x in PYSYMS], 14000, 150000, shards={"thorough": 2})], [EXACT, PYTHON])


def pysq(tests, scale=1):
    x = pys("No", tests)
    x["scale"] = scale
    return x


PYSQUARE = "real double precision states only (the Python lattices hold nothing else); cuts are large enough for exact contraction"
prop("C33",
     "Random lattices of up to 6 sites of the Python lattice library: exact evolution and observation, setting of terms, conversions and copies, pickling, simple update with terms in any order and orientation, truncation, "
     "and observation through auxiliaries, against sums over all configurations; non-trivial: more than one site and a real change (steps, bond dimension above one or terms).",
     [source("p_pysquare.cpp", [pysq(["STATES"])], 1000, 12000, shards={"quick": 7, "thorough": 8})], [PYSQUARE, LAPACK])
prop("C34",
     "Random histories of the Python auxiliaries systems and spin configurations: sites set, replaced and deleted, copies and siblings, sums of parts, pickling, new site tensors; between the changes amplitudes, holes of one or two "
     "sites and replacements are read and compared with the network contracted from scratch; non-trivial: several changes and several reads on more than one site.",
     [source("p_pysquare.cpp", [pysq(["AUXILIARIES"])], 1200, 12000, shards={"quick": 7, "thorough": 8})], [PYSQUARE, LAPACK])
prop("C35",
     "Random lattices, terms and observables of the Python lattice library: ergodic sums against the exact ones (also with vanishing amplitudes, empty operator rows, repeated runs and operators changed in between), single Markov steps "
     "against the values of the configuration they reach, amplitude derivatives, conservation, reproducibility and long-run visiting frequencies; non-trivial: more than one site and at least one term.",
     [source("p_pysquare.cpp", {"quick": [pysq(["SAMPLING"]), pysq(["STATISTICS"], 0.005)], "thorough": [pysq(["SAMPLING"]), pysq(["STATISTICS"], 0.02)]}, 800, 10000, shards={"quick": 4, "thorough": 8})],
     [PYSQUARE, LAPACK, "visiting frequencies are tested only where every configuration has the same number of moves (the factor for other cases is a documented TODO)"])
