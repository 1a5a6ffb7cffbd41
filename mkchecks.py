#!/usr/bin/env python3
"""Writes checks.json (what each check is; read by check.py and mkmanifest.py)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
C = {}
TRUST = ["the OpenMP semantics modelled by mc/runtime.cpp (dependences, taskwait, barriers, taskloop, critical, single)", "the footprints of BLAS/LAPACK calls declared in mc/blas.cpp", "OpenBLAS computes its documented operations deterministically"]
def S(i, what, extra=""):
    C[i] = dict(level="model_checking", technique="stateless model checking of the instrumented library under a controlled OpenMP scheduler: partial-order reduction to one execution per happens-before graph, plus preemption-bounded interleavings",
        level_note="Every enumerated call of %s (all options, up to 4x4 tiles): all linear extensions of its task graph are covered by showing that no two unordered tasks conflict; further schedules confirm the graph and the bits.%s Trusts the OpenMP model, the BLAS footprints and that bodies are data-race free as monitored." % (what, extra),
        rule="one case per call (routine, precision, options, shape, tile size); each is executed under several policies/placements; states are task segments, transitions the ordering edges and scheduling decisions; a case is non-trivial when it makes more than one task", assumptions=TRUST)
def N(i, what):
    C[i] = dict(level="exploration", technique="bounded-exhaustive enumeration of calls (options x shapes x tile sizes x value patterns) executed on the real code under the controlled scheduler, each compared with an independent dense reference",
        level_note="All enumerated calls of %s up to about 3x3 tiles of size 2-4, all option values, both precisions of each kind; scalars 0, 1, -1, general; fixed data per case (seeded); and a deep grid of elongated and larger shapes (3, 13, 33 with tiles of 1, 2, 16; larger in thorough), a grid with tiles of the sizes users set (32 to 256, the default parameters among them; orders up to 300, 520 in thorough), and one call of each kind with leading dimensions above 2^30. Sizes beyond the bound are not covered." % what,
        rule="one case per combination of routine, precision, options, sizes, leading dimension padding, scalars and value pattern; unreferenced elements hold NaN; a case is non-trivial when library code accessed memory during the call; cases are distinct by key", assumptions=TRUST)
S("S01", "the level-3 BLAS and utilities"); S("S02", "the Cholesky family"); S("S03", "the LU family and the mixed-precision solvers", " All schedules with a bounded number of preemptions of the panel threads.")
S("S04", "the QR/LQ family"); S("S05", "the Aasen family"); S("S06", "gesdd and stevx2", " All schedules with a bounded number of preemptions of the statically scheduled bulge chasing."); S("S07", "the norms")
N("N01", "the level-3 BLAS"); N("N02", "the Cholesky family"); N("N03", "the LU family"); N("N04", "the QR/LQ family"); N("N05", "the Aasen family"); N("N06", "gesdd and stevx2"); N("N07", "the norms"); N("N08", "the utilities"); N("N09", "the mixed-precision solvers")
C["C03"] = dict(level="exploration", technique="bounded-exhaustive enumeration of calls executed with every memory access checked against the extent of the objects handed over or allocated",
    level_note="Every load and store of library code and every declared BLAS footprint of all enumerated calls is checked against live objects and the documented extents; inputs and padding are compared afterwards. Elongated shapes also with 17 threads, tiles of the sizes users set with 5.",
    rule="one case per call (all families, all precisions, leading-dimension padding 0 and >0); non-trivial when library code accessed memory", assumptions=TRUST)
C["C04"] = dict(level="fault_enumeration", technique="exhaustive fault enumeration: every allocation of every enumerated call is made to fail alone, in pairs and persistently, on the real code under the controlled scheduler",
    level_note="For every enumerated call, each of its allocation requests (malloc, calloc, realloc, posix_memalign, ...; library and tree/workspace descriptors) fails alone, every one fails together with all later ones, and every pair of requests fails; under several policies and thread counts; the call must return the out-of-memory status or a correct result, without touching freed or null memory, without deadlock and without leaking.",
    rule="one case per call, one execution per allocation request (or pair, or suffix) of that call; non-trivial when the failed request was reached", assumptions=TRUST)
C["C11"] = dict(level="exploration", technique="bounded-exhaustive enumeration of tuning settings (tile size, inner block size, panel threads, Householder mode, thread count) crossed with calls, executed on the real code under the controlled scheduler",
    level_note="Every enumerated call is repeated with every combination of nb, ib, panel threads, Householder mode and 1, 2, 4, 5, 16, 33 threads, also with ib > nb, ib not dividing nb and more panel threads than threads; results are compared with the dense reference.",
    rule="one case per call x tuning setting; a case is non-trivial when library code accessed memory; distinct by key", assumptions=TRUST)
C["C01"] = dict(level="model_checking", technique="stateless model checking of the instrumented library on failing inputs: every position and kind of the first failure, under several policies, thread counts and one-deviation schedules",
    level_note="Every failing position in up to 3x3 tiles for every factorization and driver; each under several scheduling policies and every schedule with one preemption or one out-of-order task start.",
    rule="one case per call with a failing input; states are task segments, transitions ordering edges", assumptions=TRUST)
C["S09"] = dict(level="model_checking", technique="stateless model checking of the instrumented library: deadlock, livelock and endless-loop detection over policies, thread counts 1..5, 16, 33 and one-deviation schedules, including failing and non-finite inputs",
    level_note="Every enumerated call (all families, failing and non-finite inputs) under thread counts 1..5 (16 and 33 with one policy), three policies and every one-deviation schedule ends; spinning threads are blocked after unproductive reads, so that a livelock is a deadlock.",
    rule="one case per call; states are task segments, transitions ordering edges", assumptions=TRUST)
C["C02"] = dict(level="exploration", technique="bounded-exhaustive enumeration of argument lists around the documented domain (every argument of every routine, every pair, and calls before initialization), executed on the real code with memory containment",
    level_note="Every routine of both interfaces' synchronous form, every argument set to each illegal value and every pair of illegal arguments (triples in thorough), for 13 orders of the dimensions including empty operands: the returned code, untouched operands, no task, no BLAS call, no leak. Every option, descriptor, sequence and request argument of every asynchronous routine likewise.",
    rule="one case per routine, precision and set of illegal arguments; every case is non-trivial (an illegal call)", assumptions=TRUST)
C["C05"] = dict(level="model_checking", technique="exhaustive exploration of call histories on the real code: every ordered pair of calls (succeeding, failing, illegal, out of memory) compared with the second call alone; memory-content independence under several fill patterns",
    level_note="Every ordered pair from a pool with every routine in one process; after each call no library allocation is live, and the second call's bytes equal those of a fresh process. Every call also under four patterns of initial heap contents.",
    rule="one case per call or ordered pair of calls; non-trivial when library memory was requested", assumptions=TRUST)
C["C15"] = dict(level="model_checking", technique="stateful exhaustive exploration of all interleavings of the real barrier code (every access to the barrier object is a scheduling point; visited states are pruned, read-only loops collapsed)",
    level_note="All interleavings of 1..3 threads through 1..3 rounds, 4 threads through 2 rounds (3 in thorough), two barriers side by side, without a preemption bound. Assumes that volatile accesses and atomics take effect in program order (x86) and that threads are interchangeable.",
    rule="one case per number of threads, rounds and groups; states are distinct (what every thread observed, barrier contents) combinations, transitions the choices between threads; a case is non-trivial when it has two or more threads", assumptions=["volatile accesses are not reordered by compiler or hardware"])
C["S08"] = dict(level="model_checking", technique="stateless model checking of chained asynchronous calls on the instrumented library under a controlled OpenMP scheduler: partial-order reduction to one execution per happens-before graph, plus preemption-bounded interleavings",
    level_note="Every ordered pair of about 200 asynchronous calls on shared operands (all routines, several operand roles, square, wide, tall, band, triangular), in complex double; part of the pairs in the other precisions, part of the triples of 30 calls (all in thorough). No two unordered tasks conflict, and the data equal those of the calls made one after another. Pairs of routines with multi-threaded panels: also every one-deviation schedule (deadlocks).",
    rule="one case per chained history, tile size and Householder mode; states are task segments, transitions ordering edges and scheduling decisions; non-trivial when the history makes more than one task", assumptions=TRUST)
C["C06"] = dict(level="model_checking", technique="exhaustive exploration of failing histories on the real code: every failing operation followed by every operation, on the same and on another sequence, under several policies and every one-deviation schedule; all interleavings of simultaneous failure reports",
    level_note="About 50 ways to fail (numerical, illegal argument, every allocation of the operation failing) x about 200 later calls; the record stays the first failure, no datum changes, other sequences get their own results; reports by 2 or 3 threads at once in every interleaving.",
    rule="one case per failing operation and later operation (or second failing operation); states are task segments; every case is non-trivial (its failure is reported)", assumptions=TRUST)
C["C07"] = dict(level="model_checking", technique="exhaustive enumeration of operation sequences on the real code (every sequence up to a depth, and from every reachable model state every operation), checked step by step against an explicit state machine",
    level_note="Operations: initialize, finalize, set with legal and illegal values, set of unknown parameters, reads, the same inside parallel regions, a computation. Every sequence up to the depth bound and every transition of the explored model states is replayed on the code; after each step every setting is read back and compared with the model.",
    rule="one case per prefix of operations; states are model states reached on the code, transitions the operations checked; a case is non-trivial when its history holds an operation after initialization", assumptions=[])
C["C08"] = dict(level="exploration", technique="bounded-exhaustive enumeration of descriptors (type, tile sizes, dimensions, bandwidths, submatrices), tile addresses and copies of the real code checked element by element",
    level_note="Every general matrix up to 10x10 (16x16 thorough) with tile sizes up to 5x5 (7x7), every triangular one, every band matrix up to 10 with every bandwidth; every submatrix; all four precisions; storage beyond 2^31 elements by layout only.",
    rule="one case per type, tile size and dimensions; non-trivial always; states are memory accesses' task segments plus submatrices, transitions ordering edges", assumptions=TRUST[:1])
C["C09"] = dict(level="exploration", technique="bounded-exhaustive enumeration of constructor arguments and of single-field and paired corruptions of valid descriptors, executed on the real code against an independent consistency predicate",
    level_note="Every constructor call over a grid of dimensions around the legal domain; every valid descriptor with every field set to each of a set of other values, for all types. Fields the statement does not name (counts of tiles, offsets within the storage) are not judged.",
    rule="one case per type, tile size and dimensions; non-trivial when at least one corrupted variant was judged", assumptions=[])
C["C10"] = dict(level="model_checking", technique="exhaustive enumeration of tile grids and thread counts; the operation list produced by the real code is replayed on an explicit state machine of the tiles (square, triangular, eliminated)",
    level_note="All grids up to 32x32 (80x80 thorough), 1..64 (256) threads; every operation of every list is checked for its precondition and the final state for completeness.",
    rule="one case per tile grid; states and transitions are those of the replay; non-trivial when there is more than one tile row", assumptions=[])
C["C12"] = dict(level="exploration", technique="bounded-exhaustive enumeration of options, sizes, inner block sizes, leading dimensions and special entries of every tile kernel, executed on the real code with memory containment and compared with a dense reference",
    level_note="Every tile kernel of core_blas (about 60, four precisions) for every option and sizes 0..5 (0..7 thorough), inner blocks 0..3 (0..8), zero and rank-deficient tiles; parts not referenced hold NaN; every argument set to illegal values.",
    rule="one case per kernel call; non-trivial when the kernel exists and was called", assumptions=TRUST[:1])
C["C13"] = dict(level="exploration", technique="bounded-exhaustive enumeration of routines x configuration files x histories on the real code with the real Lua interpreter, compared with the documented table of entries and arguments",
    level_note="Every routine and precision with a tuning entry: all entries present, disabled, each entry missing or faulty in 12 ways; missing, unreadable and faulty files; the shipped configuration's values against an interpreter of our own, and with it the results; whether the call still computes the documented result for all tuned values.",
    rule="one case per call; non-trivial when the routine has an entry", assumptions=["Lua 5.x as linked"])
C["C14"] = dict(level="exploration", technique="exhaustive enumeration of all 256 characters for each of the mapping functions, and of all options, on the real code",
    level_note="Complete over the input domain (256 characters, all options).",
    rule="one case per mapping function; states are characters; non-trivial characters are those that denote an option", assumptions=[])
json.dump(C, open(D + "/checks.json", "w"), indent=1, sort_keys=True)
