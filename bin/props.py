"""What each check explores: harness, configurations per tier, bounds."""
EXCLUDE = {"gs_spmv_fused.cpp"} if False else set()
COMMON_ASSUMPTIONS = [
    "memory allocation succeeds; mmap with huge pages fails over to malloc",
    "OpenMP constructs follow the specification (static schedules, barriers, reductions); threads of a team are run in a canonical order and every conflicting unordered pair of accesses is a race query, so results do not depend on the order",
    "code is compiled by clang -O1 -ffp-contract=off with vectorisation off for the encoding; sampled paths are replayed on a g++ -O2 build",
]

def grid(_b, **axes):
    r = [dict(_b)]
    for k, vs in axes.items():
        r = [dict(x, **{k: v}) for x in r for v in vs]
    return r

def cfgs(ps, **kw):
    return [dict(p=p, **kw) for p in ps]

PROPS = {}
PROPS["P11"] = dict(h="P11", reach=["checked", "nnz>=2"], bounds="m,n <= 3, nnz <= 4, 1-3 threads, both bases, arbitrary column positions and 64-bit values",
  quick=cfgs(grid({}, T=[1, 2, 3], base=[0, 1]), t=30) + cfgs(grid(dict(novals=1), T=[2], base=[0, 1])) + cfgs(grid(dict(diag=1), T=[2], base=[0, 1])))
PROPS["P01"] = dict(h="P01", reach=["checked"], bounds="getSimpleThreadPartition: every n in [0, INT_MAX-T+1], 1-7 threads; getLoadBalancedPartition: every monotone prefix sum of up to 4 items with values in [0, INT_MAX-T] for coverage and order, and of up to 4 items with values up to 63 for the load bound, 1-4 threads", outside="longer prefix sums, more threads, totals whose rounding up overflows int; the load bound for values above 63",
  quick=cfgs(grid({}, T=[1, 2, 3, 4, 7]), t=60) + cfgs(grid(dict(lb=1, nmax=4), T=[1, 2, 3, 4])) + cfgs(grid(dict(lb=1, nmax=4, load=1, vmax=63), T=[1, 2, 3, 4])),
  thorough=cfgs(grid({}, T=[1, 2, 3, 4, 5, 6, 7, 8])) + cfgs(grid(dict(lb=1, nmax=6), T=[1, 2, 3, 4, 5]), t=900, opts=["--qto", "120000"]) + cfgs(grid(dict(lb=1, nmax=5, load=1, vmax=255), T=[1, 2, 3, 4]), t=900, opts=["--qto", "120000"]))
PROPS["P02"] = dict(h="P02", reach=["checked"], bounds="byte counts 0-200 (every one) with every byte checked, any fill value, 1-4 threads, inside and outside a parallel region; one symbolic byte count from 0 to 2^31+2^24 with a symbolic probe byte, 1-4 threads; copyVector up to 6 elements of int and double", outside="byte counts above 2^31+2^24",
  quick=cfgs(grid(dict(n=200), op=[0, 1], T=[1, 2, 3, 4]), t=60) + cfgs(grid(dict(n=70, op=0, **{"in": 1}), T=[3])) + cfgs(grid(dict(n=70, op=1, **{"in": 1}), T=[3])) + cfgs(grid(dict(n=6, op=2), T=[1, 2, 3, 4]))
  + cfgs(grid(dict(low=0), op=[3, 4], T=[1, 2, 3, 4]), samples=1, novalidate=True) + cfgs(grid(dict(low=1), op=[3, 4], T=[1, 2, 3]), samples=1, novalidate=True))
PROPS["P03"] = dict(h="P03", reach=["checked"], bounds="1-6 threads, 1-3 lanes, two successive calls on one workspace, inputs up to 2^27 in magnitude; every conflicting access pair of the team is a race query",
  quick=cfgs(grid({}, lanes=[0, 1, 2, 3], T=[1, 2, 3, 4])) + cfgs(grid({}, lanes=[0, 2], T=[6])))
PROPS["P36"] = dict(h="P36", reach=["checked", "accepted", "rejected"], bounds="vectors of 0-2 doubles (floats), each an integer in -9..9 (all arithmetic exact), negative zero, 1e30, 1e-30, infinite or not a number, against four tolerances and four magnitudes to be ignored, in all combinations", outside="differences that lie within rounding of the tolerance; vectors whose expected values are not numbers",
  quick=cfgs(grid({}, n=[1])) + cfgs(grid(dict(flt=1, conc=1), n=[1])) + cfgs(grid(dict(n=2, v=1), tolign=[0, 5, 10, 15])), thorough=cfgs(grid(dict(n=2, v=2), tolign=list(range(16))), t=900))
PROPS["P04"] = dict(h="P04", reach=["checked"], bounds="vectors of up to 4 elements (any bits), every permutation, every int array for the predicates, 1-3 threads",
  quick=cfgs(grid(dict(op=0), T=[1])) + cfgs(grid(dict(op=1, n=3), T=[1])) + cfgs(grid({}, op=[2, 3, 4], T=[1, 2, 3]), reach=["checked", "n>2"]) + cfgs(grid(dict(null=1), op=[2, 3, 4], T=[2])))

CA = dict(opts=["--concaddr"])
def D(k, o=dict(opts=[])):  # schedules with at most k delays
    return dict(opts=o["opts"] + ["--delays", str(k)])
PROPS["P05"] = dict(h="P05", reach=["checked"], bounds="up to 3 rows and 3 columns, up to 4 entries (3 for the object form) in any order and with repeats (any 64-bit values), 1-3 threads, both output bases, sorted or not; object form with and without diagonal arrays",
  quick=cfgs(grid(dict(), T=[1, 2], base=[0, 1]), **CA) + cfgs(grid(dict(sort=0), T=[3], base=[0, 1]), **CA) + cfgs(grid(dict(obj=1, nnz=3), T=[2], base=[0, 1], sep=[0, 1]), **CA) + cfgs(grid(dict(obj=1, nnz=3, dist=1, bits=0), T=[1, 2, 3], base=[0, 1], sep=[3]), **CA),
  thorough=cfgs(grid(dict(m=4, n=4, nnz=5), T=[1, 2, 3, 4], base=[0, 1]), opts=["--concaddr"], j=2, t=1500) + cfgs(grid(dict(obj=1, nnz=4, dist=1, bits=0), T=[1, 2, 3, 4], base=[0, 1], sep=[3]), opts=["--concaddr"], t=1500))
PROPS["P06"] = dict(h="P06", reach=["checked", "nnz>=2"], bounds="files of up to 3x3 with up to 3 entries in any order (distinct positions; repeats in one configuration), any non-NaN double or int value, real/integer/pattern, general/symmetric, one- and zero-based, pad 1, 2 and 4, re-used COO objects, forceSymmetric, transposed and CSR(file) loads", outside="text the C library parses (number formats, line lengths) is modelled at token level",
  quick=cfgs(grid(dict(mode=0), type=[0, 1, 2], sym=[0, 1])) + cfgs(grid(dict(), mode=[1, 2, 3, 4, 5]), **CA) + cfgs(grid(dict(pad=2), mode=[0, 1, 2, 3, 4]), **CA) + cfgs(grid(dict(pad=4), sym=[0, 1], mode=[0, 4]), **CA) + cfgs(grid(dict(), reuse=[1, 2], sym=[0, 1])) + cfgs(grid(dict(zero=1), pad=[1, 2], mode=[0, 1, 3]), **CA) + cfgs(grid(dict(dup=1), sym=[0, 1], mode=[0, 3]), **CA) + cfgs(grid(dict(blank=1), mode=[0])),
  thorough=cfgs(grid(dict(m=4, n=4, nnz=4), type=[0, 1, 2], sym=[0, 1], mode=[0, 1, 2, 3, 4, 5], pad=[1, 4]), t=900, **CA))

PROPS["P07"] = dict(h="P07", reach=["rejected"], bounds="coordinate files with any header sizes in [-2,4] (and INT_MIN/INT_MAX), 0-3 entries with any 32-bit indices; 7200 banner variants (one unsupported or over-long word at a time); text in place of each number; truncation at each token; real/integer/pattern/complex types, general/symmetric, forceSymmetric, transposed, CSR(file), pad 1 and 4", outside="declared sizes between 5 and INT_MAX-1, lines longer than 1024 characters, several malformations at once beyond those listed",
  quick=cfgs(grid(dict(kind=0, E=2), mode=[0, 1, 2], sym=[0, 1]), **CA) + cfgs(grid(dict(kind=0, E=3), sym=[0], pad=[4]), **CA) + cfgs(grid(dict(kind=0, E=2), sym=[1], pad=[4]), **CA) + cfgs(grid(dict(kind=0, E=2), type=[1, 2, 3]), **CA) + cfgs(grid(dict(kind=1), type=[0])) + cfgs(grid(dict(kind=2), type=[0, 1, 2], sym=[0, 1])) + cfgs(grid(dict(kind=3), type=[0, 1, 2, 3], sym=[0, 1])) + cfgs(grid(dict(kind=0, E=2), csr=[1, 2], mode=[0, 1]), **dict(CA, reach=["checked"])))

PROPS["P08"] = dict(h="P08", reach=["checked"], bounds="matrices up to 3x3 with up to 3 entries in any positions, every finite double (or no values at all), base 0 and 1; COO lists with repeats; storing over an existing file", outside="text formatting by the C library is modelled (17 significant digits read back exactly; fewer are tried on values that need 17)",
  quick=cfgs(grid({}, mode=[0, 1], base=[0, 1])) + cfgs(grid({}, mode=[2])) + cfgs(grid(dict(over=1), mode=[0, 2])) + cfgs(grid(dict(novals=1), mode=[0, 1], base=[0, 1])) + cfgs(grid(dict(novals=1, mode=2))),
  thorough=cfgs(grid(dict(m=4, n=4, nnz=5), mode=[0, 1], base=[0, 1]), t=900, j=2) + cfgs(grid(dict(nnz=5), mode=[2]), t=900))
PROPS["P09"] = dict(h="P09", reach=["checked"], bounds="matrices up to 3x3 (also without rows) with up to 3 entries in any positions and any 64-bit values (or none), stored in base 0 or 1, loaded in base 0 and 1 by loadBin (into a fresh or a used matrix) and by the constructor; a store that cannot open its file",
  quick=cfgs(grid({}, mode=[0, 1, 2, 3], base=[0, 1])) + cfgs(grid(dict(diag=1), base=[0, 1])) + cfgs(grid(dict(novals=1), mode=[0, 1], base=[0, 1])),
  thorough=cfgs(grid(dict(m=4, n=4, nnz=5), mode=[0, 1, 2, 3], base=[0, 1], T=[1, 3]), t=900) + cfgs(grid(dict(diag=1, m=4, nnz=6), base=[0, 1]), t=900))
PROPS["P10"] = dict(h="P10", reach=["checked"], bounds="matrices up to 4x3 with up to 4 entries, every sequence of three switches, with and without values, diagptr, diag, idiag and extptr, 1-3 threads",
  quick=cfgs(grid({}, T=[1, 2, 3], base=[0, 1])) + cfgs(grid(dict(diag=1), ext=[0, 1], base=[0, 1])) + cfgs(grid(dict(novals=1), diag=[0, 1], base=[0, 1])))
PROPS["P12"] = dict(h="P12", reach=["checked"], bounds="matrices up to 3 rows (up to 4 columns when rectangular) with up to 4 entries (3 per matrix for equals) in any positions, base 0 and 1, with and without values, with non-local columns, 1-3 threads, printing variants",
  quick=cfgs(grid(dict(op=0), cv=[0, 1], base=[0, 1]), reach=["checked", "true", "false"]) + cfgs(grid(dict(op=0, cv=1, T=3, pr=1), base=[0, 1]), reach=["checked", "true", "false"]) + cfgs(grid(dict(op=0, cv=1, novals=1, nnz=5), base=[0, 1]), reach=["checked", "true", "false"]) + cfgs(grid(dict(op=0, rect=1), base=[0, 1])) + cfgs(grid(dict(op=0, ext=1), cv=[0, 1], base=[0, 1], pr=[0, 1]))
  + cfgs(grid(dict(op=0, cv=1), T=[2, 3], base=[0, 1]), opts=["--rev"], reach=["checked", "true", "false"]) + cfgs(grid(dict(op=1), T=[2, 3], base=[0, 1]), opts=["--rev"], reach=["checked", "true", "false"])
  + cfgs(grid(dict(op=1), T=[1, 2, 3], base=[0, 1]), reach=["checked", "true", "false"]) + cfgs(grid(dict(op=1, novals=1, rect=1), base=[0, 1])) + cfgs(grid(dict(op=2, rect=1), T=[1, 2, 3], base=[0, 1])) + cfgs(grid(dict(op=3, rect=1, nnz=3), base=[0, 1]), reach=["checked", "sorted"])
  + cfgs(grid(dict(op=4, nnz=2, rect=1), base=[0, 1], base2=[0, 1], novals=[0, 1], novals2=[0, 1])))
PROPS["P13"] = dict(h="P13", reach=["checked"], bounds="matrices up to 3x3 with up to 4 entries in any positions and any values, base 0 and 1, every combination of present parts, both orders of destroying copy and source",
  quick=cfgs(grid(dict(op=0), base=[0, 1], parts=[0, 15], order=[0, 1], T=[2])) + cfgs(grid(dict(op=0, nnz=2), parts=[1, 2, 4, 8, 3, 12], novals=[0, 1])) + cfgs(grid(dict(op=1), base=[0, 1], inv=[0, 1], T=[1, 3]), **CA) + cfgs(grid(dict(op=1, novals=1), base=[0, 1])) + cfgs(grid(dict(op=2), base=[0, 1], parts=[0, 1]), novalidate=True))

PROPS["P14"] = dict(h="P14", reach=["checked", "nnz>=2"], bounds="square matrices up to 3 rows (rectangular for permuteRows) with up to 4 entries in any positions and any 64-bit values, every permutation, base 0 and 1, with and without values, diagptr/idiag and extptr, 1-3 threads",
  quick=cfgs(grid(dict(), op=[0, 1, 2, 3, 4], base=[0, 1])) + cfgs(grid(dict(diag=1), op=[0, 1, 2, 4], base=[0, 1])) + cfgs(grid(dict(diag=1, nnz=6), op=[4], base=[0, 1], novals=[0, 1])) + cfgs(grid(dict(novals=1), op=[0, 1, 2, 4], base=[1])) + cfgs(grid(dict(ext=1), op=[0, 1, 3, 4], base=[0, 1])) + cfgs(grid(dict(null=1), op=[0, 2], base=[0, 1])))
PROPS["P15"] = dict(h="P15", reach=["checked", "nnz>=2"], bounds="matrices up to 3x3 with up to 4 entries in any positions, integer values -8..8 and coefficients -4..4 (all floating-point arithmetic exact), base 0 and 1, every aliasing of w with x or y, y NULL with beta 0, 1-3 threads",
  quick=cfgs(grid(dict(nnz=3), alias=[0, 1, 2, 3, 4], base=[0, 1])) + cfgs(grid(dict(novals=1, nnz=2), base=[0, 1])) + cfgs(grid(dict(short=1), alias=[0, 1], base=[0, 1])))
PROPS["P16"] = dict(h="P16", reach=["checked", "nnz>=2"], bounds="matrices up to 3x3 with up to 3 entries in any positions, 1-2 columns, integer values -8..8 and coefficients -4..4 (all arithmetic exact), row- and column-major operands with padded strides in every combination, base 0 and 1",
  quick=cfgs(grid(dict(m=2, n=2), lay=list(range(8)), pad=[0, 1], base=[0, 1])) + cfgs(grid(dict(short=1), base=[0, 1])) + cfgs(grid(dict(coef=1), base=[0, 1], pad=[0, 1])) + cfgs(grid(dict(ynull=1, lay=7, novals=1), base=[0, 1])))
PROPS["P17"] = dict(h="P17", reach=["checked", "nnz>=2"], bounds="square matrices up to 3 rows with up to 5 entries in any positions and order, any 64-bit values, base 0 and 1, with and without values, idiag, diagonal entries and non-local columns, 1-3 threads",
  quick=cfgs(grid(dict(), T=[1, 2, 3], base=[0, 1])) + cfgs(grid(dict(ext=1), T=[2], base=[0, 1])) + cfgs(grid(dict(diag=0, novals=1, nnz=4), T=[2], base=[0, 1])))
PROPS["P18"] = dict(h="P18", reach=["checked", "symmetric", "unsymmetric"], bounds="square patterns up to 3 rows with up to 7 entries (sorted rows), with and without full diagonal and non-local columns, base 0 and 1, 1-3 threads",
  quick=cfgs(grid(dict(nnz=7), T=[1, 2, 3], base=[0, 1]), **CA) + cfgs(grid(dict(diag=0), T=[2], base=[0, 1]), **CA) + cfgs(grid(dict(ext=1, nnz=6), T=[2, 3], base=[0, 1]), **CA))
PROPS["P19"] = dict(h="P19", reach=["checked"], bounds="every grid with dimensions 1-3 and cubes up to 4, base 0 and 1, 1-3 threads", outside="larger grids",
  quick=cfgs(grid(dict(), T=[1, 2, 3], base=[0, 1])) + cfgs(grid(dict(), cube=[1, 2], base=[0, 1])))
PROPS["P29"] = dict(h="P29", reach=["checked"], bounds="array files with any header sizes in [-2,3], 65536, INT_MIN and INT_MAX and 0-9 values, any finite double (or integers up to 1000), comments, 2160 banner variants, text in place of each number", outside="numbers and lines as text are modelled at token level; sizes between 4 and INT_MAX that the file really holds",
  quick=cfgs(grid(dict(kind=0), type=[0, 1], comment=[0, 1]), reach=["checked", "loaded", "rejected"]) + cfgs(grid(dict(), kind=[1]), reach=["checked", "loaded", "rejected"]) + cfgs(grid(dict(kind=2), type=[0, 1])))
LEV_OUT = "larger matrices, more threads"
PROPS["P20"] = dict(h="P20", reach=["checked"], bounds="every structurally symmetric pattern with full diagonal up to 4 rows (hub patterns up to 8 rows), any listing order of each row half, base 0 and 1, all five entry points, halo columns, any costs up to 3, 1-4 threads, all settings of the options, schedules allocated from the memory pool with wrap-around, the parallel level path (threshold lowered through the hook) and reuse after another team size", outside=LEV_OUT,
  quick=cfgs(grid(dict(m=7, mmin=6, hub=2, thr=1), T=[3])) + cfgs(grid(dict(m=4), T=[1, 2, 3], base=[0, 1]), reach=["checked", "levels>1"]) + cfgs(grid(dict(m=3, cost=3, api=1, fork=1), T=[1, 2, 3], agg=[0, 1])) + cfgs(grid(dict(m=3, cost=1, api=1), T=[2], agg=[1]))
  + cfgs(grid(dict(m=4, thr=1), T=[1, 2, 3], base=[0, 1])) + cfgs(grid(dict(m=4, thr=1, ord=1), T=[2], api=[2, 3, 4])) + cfgs(grid(dict(m=5, mmin=5, thr=2), T=[2, 3])) + cfgs(grid(dict(m=4, T=2), bar=[0, 1], tr=[0, 1], fuse=[0, 1], agg=[0, 1]))
  + cfgs(grid(dict(m=3, T=3), reuse=[2, 1, 4], bar=[0, 1], thr=[64, 1])) + cfgs(grid(dict(m=8, mmin=6, hub=1, thr=1), T=[3, 4])) + cfgs(grid(dict(pool=1 << 20, m=4, poolat=(1 << 20) - 200000, T=2), tr=[0, 1], fuse=[0, 1])),
  thorough=cfgs(grid(dict(m=5, mmin=5), T=[1, 2, 3, 4], thr=[64, 1, 2], base=[0, 1])) + cfgs(grid(dict(m=6, mmin=6), T=[2, 3, 4]), t=1500) + cfgs(grid(dict(m=5, mmin=5, T=3), bar=[0, 1], tr=[0, 1], fuse=[0, 1], agg=[0, 1])) + cfgs(grid(dict(m=10, mmin=9, hub=1, thr=1), T=[3, 4, 5])) + cfgs(grid(dict(m=4, cost=3, api=1, fork=1), T=[2, 3]), t=900) + cfgs(grid(dict(m=3, cost=3, api=1), T=[2, 3], agg=[0, 1]), t=900))
PROPS["P21"] = dict(h="P21", reach=["checked"], bounds="forward and backward sweeps over every structurally symmetric pattern with full diagonal of up to 4 rows (all with 5 rows for 2-3 threads), 1-4 threads, with point-to-point waits or barriers, with and without transitive reduction and aggregation, serial and parallel level search", outside=LEV_OUT,
  quick=cfgs(grid(dict(m=5, mmin=5), T=[2, 3], tr=[0, 1])) + cfgs(grid(dict(m=4), T=[1, 2, 3, 4], base=[0, 1]), reach=["checked"]) + cfgs(grid(dict(m=4, T=3), bar=[0, 1], tr=[0, 1], agg=[0, 1])) + cfgs(grid(dict(m=4, T=2, thr=1), bar=[0, 1], tr=[0, 1], ord=[0, 1])) + cfgs(grid(dict(m=3, T=2, api=4))) + cfgs(grid(dict(m=5, mmin=5, thr=2), T=[2, 3])) + cfgs(grid(dict(pool=1 << 20, m=4, poolat=(1 << 20) - 200000, T=2), tr=[0, 1], fuse=[0, 1])),
  thorough=cfgs(grid(dict(m=6, mmin=6), T=[2, 3, 4], tr=[0, 1]), t=1500, j=2) + cfgs(grid(dict(m=5, mmin=5), T=[2, 3, 4], bar=[0, 1], fuse=[0, 1], thr=[64, 2], base=[0, 1])) + cfgs(grid(dict(m=4, cost=2, api=1, fork=1), T=[2, 3]), t=900))
PROPS["P22"] = dict(h="P22", reach=["checked"], bounds="every structurally symmetric pattern with full diagonal of up to 4 rows (all with 5 rows for 2-3 threads), 1-4 threads, with and without transitive reduction and aggregation", outside=LEV_OUT,
  quick=cfgs(grid(dict(m=5, mmin=5), T=[2, 3], tr=[0, 1])) + cfgs(grid(dict(m=4), T=[1, 2, 3, 4], base=[0, 1])) + cfgs(grid(dict(m=4, T=3), tr=[0, 1], agg=[0, 1])) + cfgs(grid(dict(m=4, T=2, thr=1), ord=[0, 1])) + cfgs(grid(dict(m=5, mmin=5, thr=2), T=[2, 3])) + cfgs(grid(dict(pool=1 << 20, m=4, poolat=(1 << 20) - 200000, T=2), tr=[0, 1], fuse=[0, 1])),
  thorough=cfgs(grid(dict(m=6, mmin=6), T=[2, 3, 4], tr=[0, 1]), t=1500, j=2) + cfgs(grid(dict(m=5, mmin=5), T=[2, 3, 4], thr=[64, 2], base=[0, 1])) + cfgs(grid(dict(m=4, cost=2, api=1, fork=1), T=[2, 3]), t=900))
BC = dict(opts=["--barrier-contract"])
BCC = dict(opts=["--barrier-contract", "--cache", "--canon", "findConnectedComponents_", "--canon", "synk"])
PROPS["P23"] = dict(h="P23", reach=["checked"], bounds="every symmetric pattern of 0-4 vertices with and without diagonal entries with 1 thread (columns of a row in either order); every symmetric pattern without diagonal of 0-4 vertices with 2-3 threads, and paths, stars and last levels shared by two threads of up to 9 vertices, every interleaving of the plain reads and writes of different threads (states that coincide explored once); switch-over thresholds to the parallel BFS as shipped and lowered to 2-4 vertices so that the serial, parallel and path-doubling phases are all reached; base 0 and 1; every pattern of 5 vertices with 2 threads and at most 1 delay for the first two orderings", outside="larger graphs and teams; memory orders weaker than sequential consistency on the bit vectors and level arrays; findConnectedComponents and the barrier are used through what P24 and P26 establish (their output does not depend on the schedule; every thread's writes before a wait are seen after it)",
  quick=cfgs(grid(dict(m=4, mmin=0), T=[1], alg=[0, 1, 2], base=[0, 1], thr=[0, 2, 3])) + cfgs(grid(dict(m=4, rev=1, T=1), alg=[0, 1, 2], base=[0, 1])) + cfgs(grid(dict(m=4, mmin=0, ilv=1, diag=0), alg=[0, 1, 2], T=[2, 3], thr=[0, 2, 3]), t=100, **BCC)
  + cfgs(grid(dict(m=4, ilv=1, diag=0, T=2, thr=2), alg=[0, 1, 2], rev=[1], base=[1]), **BCC) + cfgs(grid(dict(ilv=1, diag=0, mmin=9, m=9, shape=2, T=3, thr=4), alg=[0, 1, 2]), **BCC) + cfgs(grid(dict(ilv=1, diag=0, mmin=7, m=7, T=2, thr=2), shape=[3], alg=[0, 1, 2]), **BCC) + cfgs(grid(dict(ilv=1, diag=0, mmin=7, m=7, T=3, thr=2), shape=[4], alg=[0, 1, 2]), **BCC)
  + cfgs(grid(dict(m=5, mmin=5, ilv=1, diag=0, thr=2), alg=[0, 1], T=[2]), t=100, **D(1, BCC)) + cfgs(grid(dict(m=7, mmin=7, diag=0, thr=2, shape=5), alg=[0, 1, 2], T=[1])) + cfgs(grid(dict(m=7, mmin=7, diag=0, thr=2, ilv=1, shape=5), alg=[1, 2], T=[2, 3]), **D(2, BCC)) + cfgs(grid(dict(m=6, mmin=6, diag=0, thr=2, shape=6), alg=[0, 1, 2], T=[1])) + cfgs(grid(dict(m=6, mmin=6, diag=0, thr=2, ilv=1, shape=6), alg=[1, 2], T=[2, 3]), **D(2, BCC)) + cfgs(grid(dict(m=8, mmin=8, diag=0, thr=2, shape=7), alg=[0, 1, 2], T=[1])) + cfgs(grid(dict(m=8, mmin=8, diag=0, thr=2, ilv=1, shape=7), alg=[1, 2], T=[2, 3]), **D(2, BCC)),
  thorough=cfgs(grid(dict(m=5, mmin=5, T=1), alg=[0, 1, 2], base=[0, 1], thr=[0, 2, 3]), t=900) + cfgs(grid(dict(m=5, mmin=5, ilv=1, diag=0), alg=[0, 1, 2], T=[2, 3], thr=[2, 3]), t=1500, j=4, **BCC) + cfgs(grid(dict(m=4, ilv=1), alg=[0, 1, 2], T=[2, 3], base=[0, 1], thr=[2, 3]), t=900, **BCC)
  + cfgs(grid(dict(m=4, mmin=0, ilv=1, diag=0, T=4), alg=[0, 1, 2], thr=[2]), t=900, **BCC) + cfgs(grid(dict(ilv=1, diag=0, T=2, thr=2, shape=1), m=[5, 6, 7], alg=[0, 1, 2]), t=900, **BCC) + cfgs(grid(dict(ilv=1, diag=0, mmin=9, m=10, shape=2, thr=3), T=[2, 4], alg=[0, 1, 2]), t=600, **BCC)
  + cfgs(grid(dict(m=5, mmin=5, ilv=1, diag=0), alg=[0, 1, 2], T=[3, 4], thr=[2, 3]), t=900, **D(1, BCC)) + cfgs(grid(dict(m=5, mmin=5, ilv=1, diag=0), alg=[0, 1, 2], T=[3], thr=[2]), t=2500, **D(2, BCC)) + cfgs(grid(dict(m=6, mmin=6, ilv=1, diag=0, T=2, thr=2), alg=[0, 1, 2]), t=2500, **D(1, BCC)))
CH = dict(opts=["--cache"])
P24R = ["checked"]
PROPS["P24"] = dict(h="P24", reach=["checked"], bounds="every symmetric pattern of up to 4 vertices (with and without diagonal entries; 3 vertices only with 4 threads), 1-3 threads, every interleaving of the reads, writes and compare-and-swaps of the shared parent array (states that coincide are explored once), with a bit vector hiding any subset of the vertices, columns of a row in either order, bases 0 and 1; every pattern of 4 vertices with 4 threads and at most 2 delays, of 5 vertices with 3 threads and at most 1 delay", outside="larger graphs and teams; memory orders weaker than sequential consistency on the volatile parent array",
  quick=cfgs(grid(dict(m=4, mmin=4, diag=0, maxe=3), T=[3], rev=[1]), t=200, **CH) + cfgs(grid(dict(m=4, mmin=4, diag=0, maxe=3, T=3), **{}), t=100, **CH) + cfgs(grid(dict(m=3, mmin=0), T=[2, 3], base=[0, 1]), **CH) + cfgs(grid(dict(m=4, mmin=4, diag=0, T=2), rev=[0, 1], bv=[0, 1]), **CH)
  + cfgs(grid(dict(m=4, mmin=0), T=[1], bv=[0, 1], base=[0, 1])) + cfgs(grid(dict(m=3, bv=1, diag=0), T=[3, 4]), **CH) + cfgs(grid(dict(m=3, diag=0), T=[4], rev=[0, 1]), **CH)
  + cfgs(grid(dict(m=4, mmin=4, diag=0), T=[4]), **D(2, CH)) + cfgs(grid(dict(m=5, mmin=5, diag=0), T=[3]), t=100, **D(1, CH)),
  thorough=cfgs(grid(dict(m=4, mmin=4, diag=0), T=[3], rev=[0, 1]), t=2500, j=2, **CH) + cfgs(grid(dict(m=5, mmin=5, diag=0), T=[2], rev=[0, 1]), t=2500, j=2, **CH) + cfgs(grid(dict(m=5, mmin=5, diag=0, maxe=4), T=[3]), t=2500, j=2, **CH) + cfgs(grid(dict(m=4, mmin=4, diag=0, maxe=3), T=[4]), t=2500, j=2, **CH)
  + cfgs(grid(dict(m=5, mmin=5), T=[1], bv=[0, 1], base=[0, 1]), t=600) + cfgs(grid(dict(m=4, mmin=4, T=3, diag=0), bv=[1]), t=1500, **CH) + cfgs(grid(dict(m=3, mmin=0), T=[2, 3, 4], base=[0, 1], rev=[0, 1]), **CH)
  + cfgs(grid(dict(m=5, mmin=5, diag=0), T=[3, 4], rev=[0, 1]), t=900, **D(2, CH)) + cfgs(grid(dict(m=6, mmin=6, diag=0), T=[2, 3]), t=2500, **D(1, CH)) + cfgs(grid(dict(m=5, mmin=5, diag=0, bv=1), T=[3]), t=900, **D(1, CH)))
PROPS["P26"] = dict(h="P26", reach=["checked"], bounds="every interleaving of up to 3 one-thread cores over two successive waits, of 4 cores over one wait, of 1-2 cores of two threads over two waits; five waits in a row of 2-4 cores with at most one delay; every interleaving of the initialisation of 2-3 cores; instances made by initializeInstance and getInstance, inside and outside a parallel region and after another team size; every interleaving with at most 1 delay of 5-8 one-thread cores, 4 cores of two and 3 of three threads over two waits (2 delays for 5 cores) and of the initialisation of 5 and 8 cores (a delay moves the thread that would run next behind all others)", outside="more threads or successive waits; memory orders weaker than sequential consistency on the flags (they are volatile accesses on x86)",
  quick=cfgs(grid({}, C=[3], H=[1])) + cfgs(grid({}, C=[2], H=[2])) + cfgs(grid(dict(rounds=1), C=[4], H=[1])) + cfgs(grid({}, C=[1, 2], H=[1])) + cfgs(grid({}, C=[1], H=[2])) + cfgs(grid(dict(mode=1), C=[2, 3])) + cfgs(grid(dict(C=2), mode=[2, 3, 4, 5, 6])) + cfgs(grid(dict(C=1, H=2), mode=[2, 4]))
  + cfgs(grid({}, C=[5, 6, 7, 8], H=[1]), **D(1)) + cfgs(grid({}, C=[4], H=[2]), **D(1)) + cfgs(grid({}, C=[3], H=[3]), **D(1)) + cfgs(grid({}, C=[5], H=[1]), **D(2)) + cfgs(grid(dict(mode=1), C=[5, 8]), **D(1)) + cfgs(grid(dict(rounds=5), C=[2, 3, 4], H=[1]), **D(1)) + cfgs(grid(dict(rounds=5), C=[2, 3], H=[2]), **D(1)),
  thorough=cfgs(grid({}, C=[4], H=[1]), t=3000) + cfgs(grid(dict(rounds=1), C=[2], H=[3]), t=1500) + cfgs(grid(dict(rounds=1), C=[5, 6], H=[1]), t=1500) + cfgs(grid(dict(rounds=3), C=[3], H=[1]), t=1500) + cfgs(grid(dict(rounds=4), C=[2], H=[1])) + cfgs(grid(dict(mode=1), C=[4]), t=1500) + cfgs(grid(dict(C=3), mode=[2, 3, 4, 5, 6]))
  + cfgs(grid({}, C=[6, 7, 8, 9, 10], H=[1]), t=600, **D(2)) + cfgs(grid(dict(rounds=3), C=[4, 5, 6, 7], H=[1, 2]), t=600, **D(2)) + cfgs(grid({}, C=[4, 5], H=[1]), t=900, **D(3)) + cfgs(grid({}, C=[3, 4], H=[3]), t=900, **D(2)))
PROPS["P27"] = dict(h="P27", reach=["checked"], bounds="every interleaving of up to 3 one-thread cores and of 1-2 cores of two threads over two successive reductions (sum and maximum of any values up to 1000 in magnitude), five in a row with at most one delay, and of the initialisation of 2-3 cores; every interleaving with at most 1 delay of 4, 5, 6 and 8 one-thread cores and 4 cores of two threads (2 delays for 4 cores)", outside="4 and more cores except in the fixed order of the mode=1 runs; more successive reductions",
  quick=cfgs(grid({}, C=[3], H=[1])) + cfgs(grid({}, C=[2], H=[2])) + cfgs(grid({}, C=[1, 2], H=[1])) + cfgs(grid({}, C=[1], H=[2])) + cfgs(grid(dict(op=1), C=[2], H=[1])) + cfgs(grid(dict(mode=1), C=[2, 3])) + cfgs(grid(dict(mode=2), C=[4, 5, 6, 7], op=[0, 1])) + cfgs(grid(dict(mode=2), C=[3, 4], H=[2, 3]))
  + cfgs(grid({}, C=[4, 5, 6, 8], H=[1]), **D(1)) + cfgs(grid({}, C=[4], H=[2]), **D(1)) + cfgs(grid({}, C=[4], H=[1]), **D(2)) + cfgs(grid(dict(rounds=5), C=[2, 3], H=[1]), **D(1)) + cfgs(grid(dict(rounds=5), C=[2], H=[2]), **D(1)) + cfgs(grid(dict(mode=2, rounds=5), C=[3, 5, 6], H=[1, 2])),
  thorough=cfgs(grid(dict(rounds=1), C=[4], H=[1]), t=3000) + cfgs(grid(dict(rounds=3), C=[3], H=[1]), t=3000) + cfgs(grid(dict(rounds=4), C=[2], H=[1])) + cfgs(grid(dict(op=1), C=[3], H=[1]), t=600) + cfgs(grid(dict(mode=2, rounds=4), C=[3, 4, 5, 6, 7, 8]))
  + cfgs(grid({}, C=[4, 5, 6], H=[1]), t=900, **D(2)) + cfgs(grid({}, C=[7, 8, 9], H=[1]), t=900, **D(1)) + cfgs(grid({}, C=[3, 4], H=[2, 3]), t=900, **D(2)) + cfgs(grid({}, C=[4], H=[1]), t=900, **D(3)))
PROPS["P31"] = dict(h="P31", reach=["checked"], bounds="every interleaving of the reads and writes of 2-3 one-thread cores (and of one core of two threads) through one wait of the instrumented barrier, with the accounting for every clock reading of up to 6 bits; 2 cores of two threads with states that coincide explored once; two and three successive waits with any clock readings of 4-8 bits and 1-3 uses in a fixed order of the threads (up to 4 cores of two threads); instances made by initializeInstance, getInstance and deleteInstance, inside and outside a parallel region; interleavings with at most 1 delay of 4 and 6 cores over two waits and of 3 cores of two threads", outside="more threads; longer histories than three waits; larger clock readings",
  quick=cfgs(grid(dict(rounds=3, ilv=0, bits=4), C=[4], H=[2], uses=[1, 3])) + cfgs(grid(dict(rounds=3, ilv=0, bits=8, H=1), C=[2])) + cfgs(grid(dict(rounds=3, ilv=0, bits=6, H=1), C=[3])) + cfgs(grid(dict(bits=6, H=1), rounds=[1, 2], C=[2, 3]), **CH) + cfgs(grid(dict(rounds=1, bits=6, C=2, H=2)), **CH) + cfgs(grid(dict(rounds=1, bits=6, ilv=2), C=[2], H=[1])) + cfgs(grid(dict(rounds=1, bits=6, ilv=2), C=[1], H=[2])) + cfgs(grid(dict(rounds=1, bits=6, C=2, H=1), mode=[1, 2, 3, 4, 5]), **CH)
  + cfgs(grid(dict(rounds=2, bits=4, H=1), C=[4, 6]), **D(1)) + cfgs(grid(dict(rounds=1, bits=4, H=2), C=[3]), **D(1)),
  thorough=cfgs(grid(dict(rounds=3, ilv=0, bits=8), C=[4], H=[1, 2], uses=[1, 3]), t=900) + cfgs(grid(dict(bits=6, H=1, rounds=3), C=[2, 3]), t=900, **CH) + cfgs(grid(dict(rounds=2, bits=6, C=2, H=2)), t=2500, j=2, **CH) + cfgs(grid(dict(rounds=1, bits=6, C=4, H=1)), t=2500, j=2, **CH) + cfgs(grid(dict(rounds=2, bits=4, ilv=2), C=[2], H=[1]), t=2500, j=2)
  + cfgs(grid(dict(rounds=2, bits=4, H=1), C=[4, 6, 8]), t=900, **D(2)) + cfgs(grid(dict(rounds=2, bits=4, H=2), C=[3, 4]), t=900, **D(1)))
REL = ["a copy", "an allocated matrix", "a matrix over given arrays", "queries", "products", "a transpose", "a row permutation", "permuted row pointers", "a permutation", "columns in place", "the parts of a split", "a symmetric pattern", "a converted matrix", "storing and loading a binary file", "a Laplacian", "a level schedule", "a BFS ordering", "an RCM ordering", "an RCM ordering from pseudo-peripheral vertices", "components", "components of a part", "a bipartite ordering", "storing a matrix", "loading a matrix", "a matrix from a file", "storing a coordinate matrix", "a rejected file", "a rejected vector", "vector operations", "a vector file", "a pool", "barriers", "reducing barriers", "every file is closed"]
PROPS["P32"] = dict(h="P32", reach=["checked"], kinds=["memory"] + REL, bounds="matrices up to 3x3 with up to 3 entries in any positions (with full diagonal where needed, with and without values, base 0 and 1), every permutation, every symmetric pattern of up to 3 rows for schedules (every option) and of up to 4 vertices for orderings and components; Matrix Market files of up to 2x2, also rejected ones; 1-2 threads, threads in a fixed order", outside="larger inputs; failing allocations; interleavings of the threads; what MemoryPool hands out (P28); schedules constructed twice in one object",
  quick=cfgs(grid(dict(), op=[0, 1, 2, 3], T=[1, 2], vals=[0, 1], base=[0, 1])) + cfgs(grid(dict(), op=[4], T=[1, 2], vals=[0, 1], base=[0, 1]), **CA) + cfgs(grid(dict(op=0, diag=1), T=[1, 2], base=[0, 1])) + cfgs(grid(dict(op=2, sort=1), vals=[0, 1])) + cfgs(grid(dict(), op=[5, 6, 7, 10, 11, 12, 13], T=[1, 2], base=[0, 1])) + cfgs(grid(dict(op=8), T=[1, 2], base=[0, 1], api=[0, 2, 3])) + cfgs(grid(dict(op=8, T=2), bar=[0, 1], tr=[0, 1], fuse=[0, 1], agg=[0, 1], thr=[64, 1])) + cfgs(grid(dict(op=9, m=4), T=[1, 2], base=[0, 1])) + cfgs(grid(dict(op=9, m=3, par=2), T=[1])),
  thorough=cfgs(grid(dict(nnz=4), op=[0, 1, 2, 3], T=[1, 2, 3], vals=[0, 1], base=[0, 1]), t=900) + cfgs(grid(dict(op=8, m=4), T=[2, 3], bar=[0, 1], tr=[0, 1], fuse=[0, 1], agg=[0, 1], thr=[64, 1]), t=900) + cfgs(grid(dict(op=9, m=5), T=[1, 2, 3], base=[0, 1]), t=900))
PROPS["P33"] = dict(h="P33", reach=["checked"], bounds="every combination of storage, data type and symmetry; any sizes; coordinate files of up to 2 entries with any positions and finite values, written by mm_write_mtx_crd or by hand, cut off after any number", outside="text the C library formats and parses (modelled at token level); failing writes; more entries",
  quick=cfgs(grid({}, op=[0, 1, 2, 3])) + cfgs(grid(dict(cut=1), op=[2, 3])),
  thorough=cfgs(grid(dict(nnz=3), op=[0, 1, 2, 3])) + cfgs(grid(dict(cut=1, nnz=3), op=[2, 3])))
PROPS["P34"] = dict(h="P34", reach=["checked"], bounds="vectors of up to 70 bits with any sequence of 3 operations by one thread; vectors of 1-3 bits in any state, 2-3 threads with up to 2 operations each (testAndSet and get of any bits; any operations on bits of the thread's own), every interleaving of their reads, writes and atomic updates", outside="longer sequences, more threads; memory orders weaker than sequential consistency",
  quick=cfgs(grid(dict(mode=0, L=3, T=1), n=[5], nmin=[1])) + cfgs(grid(dict(mode=0, L=3, T=1), n=[70], nmin=[65])) + cfgs(grid(dict(mode=1), T=[2], n=[2, 3])) + cfgs(grid(dict(mode=2), T=[2], n=[4])) + cfgs(grid(dict(mode=1, L=1), T=[3], n=[3])) + cfgs(grid(dict(mode=2, L=1), T=[3], n=[3])) + cfgs(grid(dict(mode=1, L=2), T=[3], n=[1]), **CH) + cfgs(grid(dict(mode=2, L=2), T=[3], n=[3]), **CH),
  thorough=cfgs(grid(dict(mode=0, L=4, T=1), n=[5], nmin=[1]), t=900) + cfgs(grid(dict(mode=0, L=3, T=1), n=[70], nmin=[1]), t=900) + cfgs(grid(dict(mode=1), T=[2], n=[2, 3, 4]), t=900) + cfgs(grid(dict(mode=1, L=2), T=[3], n=[1, 2]), t=2500, **CH) + cfgs(grid(dict(mode=2, L=2), T=[3], n=[3, 6]), t=2500, **CH))
PROPS["P25"] = dict(h="P25", reach=["checked"], bounds="every bipartite graph of 0-3 rows and 0-3 columns (and 4x4 stars, paths and shared last levels), 1-3 threads, every interleaving of the reads, writes and atomic updates of different threads (states that coincide explored once), entries of a row and of a column in either order, base 0 and 1; every bipartite graph of up to 3 rows and columns with 4 threads and at most 1 delay", outside="larger graphs and teams; memory orders weaker than sequential consistency; the barrier is used through what P26 establishes",
  quick=cfgs(grid(dict(m=3, n=3, ilv=1), T=[3, 2]), t=200, **BCC) + cfgs(grid(dict(m=3, n=3), T=[1], base=[0, 1], rev=[0, 1, 2, 3])) + cfgs(grid(dict(m=2, n=2, ilv=1, base=1), T=[2, 3], rev=[0, 1, 2, 3]), **BCC) + cfgs(grid(dict(ilv=1, m=4, n=4, mmin=4, nmin=4), T=[2, 3], shape=[1, 2, 3, 4]), **BCC)
  + cfgs(grid(dict(m=3, n=3, ilv=1), T=[4]), t=100, **D(1, BCC)),
  thorough=cfgs(grid(dict(m=4, n=3, mmin=4, ilv=1), T=[2, 3]), t=2500, j=2, **BCC) + cfgs(grid(dict(m=3, n=4, nmin=4, ilv=1), T=[2, 3]), t=2500, j=2, **BCC) + cfgs(grid(dict(m=3, n=3, ilv=1), T=[4]), t=2500, j=2, **BCC) + cfgs(grid(dict(m=4, n=4, T=1), base=[0, 1]), t=900) + cfgs(grid(dict(ilv=1, mmin=5, nmin=5, m=6, n=6), T=[2, 3], shape=[1, 2, 3, 4]), t=900, **BCC)
  + cfgs(grid(dict(m=4, n=3, mmin=4, ilv=1), T=[3, 4]), t=900, **D(1, BCC)) + cfgs(grid(dict(m=3, n=4, nmin=4, ilv=1), T=[3, 4]), t=900, **D(1, BCC)) + cfgs(grid(dict(m=3, n=3, ilv=1), T=[4]), t=900, **D(2, BCC)) + cfgs(grid(dict(ilv=1, mmin=6, nmin=6, m=7, n=7), T=[3, 4], shape=[1, 2, 3, 4]), t=900, **D(2, BCC)))
PROPS["P28"] = dict(h="P28", reach=["checked"], bounds="pools of 4096, 1000, 65560 and 1048600 bytes in every state (head, tail), every request that fits (any byte count, alignments 1, 8, 64, 256), every setHead and setTail that shrinks, any byte of the pool as the witness; two such steps in a row on pools of 4096 (alignments 1, 64) and 1000 bytes; symmetrised patterns of every matrix of up to 3 rows in the pool, with the pool starting fresh or about to wrap, 1-2 threads", outside="requests that do not fit (the pool asserts), pools above 1048600 bytes; schedules in the pool are checked with P20-P22",
  quick=cfgs(grid({}, size=[1048600, 65560, 4096, 1000])) + cfgs(grid(dict(steps=2), size=[1000]), t=100) + cfgs(grid(dict(steps=2, aligns=2), size=[4096]), t=100) + cfgs(grid(dict(pool=1, nnz=7), T=[1, 2], base=[0, 1], at=[0, 3904]), h="P18", **CA),
  thorough=cfgs(grid(dict(steps=3, aligns=2), size=[4096, 1000, 65560]), t=900) + cfgs(grid(dict(steps=2), size=[65560, 1048600, 4160]), t=900) + cfgs(grid(dict(pool=1, nnz=9), T=[1, 2, 3], base=[0, 1], at=[0, 3904, 3840]), h="P18", **CA))
SAME = "T threads give the result of one thread"
PROPS["P30"] = dict(h="P30", reach=["checked"], kinds=["race", SAME], bounds="every pair of conflicting accesses of different threads between the same synchronisation points in transpose, permute (sorted or not), permuteRows, permuteRowptr, permuteColsInPlace, dcoo2csr, matrix-vector and matrix-matrix products, splitLU, getSymmetricNnzPattern, base switching, the symmetry, diagonal, bandwidth, degree and equality queries, the copy constructor, computeInverseDiag, the Laplacian, vector reorderings, parMemset/parMemcpy/copyVector, prefix sums and level-schedule construction (barrier and point-to-point, with and without reduction, fusion, aggregation and the parallel level path), on matrices up to 3x3 with up to 4 entries (4 rows for schedules), base 0 and 1, with and without values and non-local columns, 2-4 threads; results compared bit by bit with those of one thread", outside="larger matrices and teams; BFS, RCM, bipartite BFS and connected components, whose deliberate races are covered by P23-P25",
  quick=cfgs(grid({}, op=list(range(17)), T=[2, 3], base=[0, 1]), **CA) + cfgs(grid(dict(novals=1, T=2), op=[0, 1, 5, 9, 12, 13]), **CA) + cfgs(grid(dict(ext=1, nnz=4), op=[1, 2, 5, 9, 10, 11, 13], T=[3]), **CA) + cfgs(grid(dict(nnz=7, T=3), op=[9, 10]), **CA) + cfgs(grid(dict(lanes=2), T=[2, 4]), h="P03")
  + cfgs(grid(dict(m=4, thr=1), T=[2, 3], tr=[0, 1]), h="P20") + cfgs(grid(dict(m=4, T=3, bar=1)), h="P20") + cfgs(grid(dict(m=4, T=3), fuse=[1], agg=[0, 1]), h="P20") + cfgs(grid(dict(m=8, mmin=6, hub=1, thr=1), T=[3]), h="P20"),
  thorough=cfgs(grid(dict(m=3, nnz=5), op=list(range(17)), T=[2, 3, 4], base=[0, 1]), t=900, **CA) + cfgs(grid(dict(m=4, nnz=5), op=[0, 3, 4, 6, 7, 9, 10, 11, 12, 13, 16], T=[3, 4]), t=900, **CA) + cfgs(grid(dict(ext=1, nnz=6), op=[1, 2, 5, 9, 10, 11, 13], T=[2, 3, 4]), t=900, **CA) + cfgs(grid(dict(lanes=3), T=[3, 5, 6]), h="P03")
  + cfgs(grid(dict(m=5, mmin=5, thr=1), T=[2, 3, 4], tr=[0, 1], bar=[0, 1]), h="P20", t=900) + cfgs(grid(dict(m=5, mmin=5, T=3), fuse=[0, 1], agg=[0, 1], tr=[0, 1]), h="P20", t=900) + cfgs(grid(dict(m=10, mmin=8, hub=1, thr=1), T=[3, 4]), h="P20", t=900))
PROPS["P35"] = dict(h="P35", reach=["checked", "loaded", "rejected"], bounds="files of 0-16 words (or cut off inside the header), 0-3 further bytes: any number of columns, row and entry counts in [-2,3], 65536, INT_MIN and INT_MAX, any 32-bit row lengths, columns and value words; any file identifier; loaded into fresh and used matrices (owning their arrays or not) and by the constructor, in base 0 and 1, 1-2 threads", outside="sizes between 4 and INT_MAX that the file really holds; read errors of the operating system",
  quick=cfgs(grid(dict(W=12), mode=[0, 1, 2], base=[0, 1])) + cfgs(grid(dict(anyid=1), part=[0, 3])) + cfgs(grid(dict(part=3, W=10), T=[1])),
  thorough=cfgs(grid(dict(m=4, W=16), mode=[0, 1, 2], base=[0, 1]), t=900) + cfgs(grid(dict(anyid=1), part=[0, 3], T=[1, 3])))

# ---- larger matrices of fixed structure (harness/sx.h, "form"): row lengths beyond every unrolling, more rows than threads and more threads than rows; values, fill arrays and coefficients stay symbolic
FORMS = {1: "rows of 0, 1, 2, ... entries", 2: "rows getting shorter", 3: "a band", 4: "an arrow", 5: "mostly empty rows", 6: "one long row"}
def more(pid, text, quick, thorough=None):
    P = PROPS[pid]
    old = list(P["quick"]); oldt = list(P.get("thorough") or [])
    for c in quick + (thorough or []):
        c.setdefault("reach", ["checked"])
    P["quick"] = old + quick
    if thorough is not None or oldt:
        P["thorough"] = (oldt or old) + quick + (thorough or [])
    P["bounds"] += "; " + text
FT = "fixed structures (rows of 0 to 18 entries, bands, arrows, mostly empty rows, one long row) of up to 19 rows with any values, 4-8 threads"
R = lambda *a, **k: cfgs(grid(*a, **k))
more("P04", "vectors of 33-35 elements under five kinds of permutation with 4-8 threads, of 3 elements under every one with 5-8 threads",
  R(dict(form=1), op=[2, 3, 4], n=[33, 35], T=[5, 8]) + R(dict(n=3), op=[2, 3, 4], T=[5, 8]),
  R(dict(form=1), op=[2, 3, 4], n=[31, 32, 34, 37, 64], T=[2, 3, 5, 7]) + R(dict(n=5), op=[2, 3, 4], T=[2, 4, 6]) + R({"op": 0, "n": 6}, T=[1]) + R({"op": 1, "n": 4}, T=[1]))
more("P05", FT, R(dict(m=18, n=19), form=[1, 5], sort=[0, 1], T=[5]) + R(dict(m=12, n=12, obj=1, dist=1, bits=0), form=[1, 3, 4], sep=[0, 3], T=[5]) + R(dict(m=7, n=19, form=2), base=[0, 1], T=[8]),
  R(dict(m=19, n=19), form=[1, 2, 3, 4, 5, 6], base=[0, 1], T=[3, 8]) + R(dict(m=12, n=12, obj=1, dist=1, bits=0), form=[1, 2, 3, 4, 5, 6], sep=[0, 1, 2, 3], base=[0, 1], T=[3, 5]))
more("P06", "files of up to 45 entries with fixed positions and any values", R(dict(m=9, n=10, form=1), mode=[0, 2, 3, 4], type=[0, 1, 2]) + R(dict(m=9, n=9, form=3, fd=1, sym=1), mode=[0, 3, 5], type=[0, 1]) + R(dict(m=9, n=7, form=2, pad=4), mode=[0, 2, 4]),
  R(dict(m=12, n=11), form=[1, 2, 3, 4, 5, 6], mode=[0, 2, 3, 4], type=[0, 1, 2]) + R(dict(m=10, n=10, sym=1, fd=1), form=[3, 4], mode=[0, 1, 2, 3, 4, 5], type=[0, 1, 2], pad=[1, 4]))
more("P08", "matrices of up to 17 rows with rows of 0-16 entries, of fixed structure, with any finite values", R(dict(m=17, n=16, form=1), mode=[0, 1], base=[0, 1]), R(dict(m=17, n=16), form=[2, 3, 4, 5, 6], mode=[0, 1], base=[0, 1]))
more("P09", "matrices of up to 17 rows with rows of 0-17 entries, of fixed structure, with any values", R(dict(m=17, n=18), form=[1, 5], mode=[0, 1], T=[5]) + R(dict(m=18, n=18, form=4, diag=1, low=1), base=[0, 1]), R(dict(m=17, n=18), form=[2, 3, 4, 6], mode=[0, 1, 3], base=[0, 1], T=[2, 8]))
more("P10", FT, R(dict(m=19, n=17), form=[1, 5], T=[5, 8], base=[0, 1]) + R(dict(m=18, diag=1, form=3, ext=1), T=[5], base=[0, 1]) + R(dict(m=3, nnz=3), T=[5, 8], base=[0, 1]), R(dict(m=5, nnz=6), T=[1, 3, 4], base=[0, 1]) + R(dict(m=19, n=17), form=[2, 3, 4, 6], T=[4, 7, 8], base=[0, 1]) + R(dict(m=4, nnz=5, diag=1), ext=[0, 1], T=[2, 4], base=[0, 1]))
more("P11", FT, R(dict(m=18, n=17), form=[1, 5], T=[5], base=[0, 1]) + R(dict(m=18, n=17, form=4, novals=1), T=[7], base=[0, 1]) + R(dict(m=18, n=17, form=3, srt=1), T=[6]) + R(dict(m=7, n=19, form=2), T=[8], base=[0, 1]) + R(dict(m=18, n=18, form=3, diag=1, low=1), T=[5]) + R(dict(nnz=3, m=2), T=[5, 8]),
  R(dict(m=19, n=17), form=[1, 2, 3, 4, 5, 6], T=[3, 8], base=[0, 1]) + cfgs(grid(dict(m=4, n=4, nnz=4), T=[2, 3, 4], base=[0, 1]), t=900))
more("P12", FT, R(dict(m=18), form=[1, 3, 4], op=[0, 1, 2, 3], T=[5]) + R(dict(m=18, cv=1, cvals=2, op=0), form=[3, 4], T=[4, 7], srt=[0, 1]) + R(dict(m=18, cv=1, cvals=2, op=0, T=1), form=[3, 4], pr=[0, 1], srt=[0, 1]) + R(dict(m=18, cvals=2, op=4), form=[1, 3], T=[5]) + R(dict(m=19, n=17, rect=1), op=[2, 3], form=[1, 5], T=[8]),
  R(dict(m=4, nnz=5), op=[0, 1, 2], cv=[0, 1], T=[2, 4]) + R(dict(m=18), form=[1, 2, 3, 4, 5, 6], op=[0, 1, 2, 3], T=[3, 8], base=[0, 1]))
more("P13", FT, R(dict(m=18, op=1, low=1), form=[1, 3, 4], T=[5]) + R(dict(m=18, op=1, low=1, inv=1), form=[3, 4], T=[5, 8]) + R(dict(m=18, n=18, op=0, form=1), order=[0, 1], parts=[0, 15], T=[5]) + R(dict(m=18, n=17, op=0, form=5), novals=[0, 1], T=[8]),
  R(dict(op=0, m=4, nnz=5), parts=[0, 15], order=[0, 1], base=[0, 1]) + R(dict(m=18, op=1, low=1), form=[1, 2, 3, 4, 5, 6], base=[0, 1], T=[3, 8]) + R(dict(op=1, m=4, nnz=6), inv=[0, 1], T=[2, 4]))
more("P14", FT + " under five kinds of permutation", R(dict(m=18, n=18), form=[1], op=[0, 1, 2, 3, 4], T=[5]) + R(dict(m=11, n=11, diag=1, form=3), op=[0, 1, 2, 4], T=[5], base=[0, 1]) + R(dict(m=17, form=4), ext=[1], op=[0, 1, 2], T=[8]) + R(dict(m=19, n=17, form=5, op=2), T=[8]) + R(dict(m=2, n=2, nnz=3), op=[0, 1, 2, 3, 4], T=[5]),
  R(dict(m=18, n=18), form=[1, 2, 3, 4, 5, 6], op=[0, 1, 2, 3, 4], T=[3, 8], base=[0, 1]) + cfgs(grid(dict(m=4, nnz=4), op=[0, 1, 2, 3, 4], T=[2, 3]), t=900))
more("P15", FT + " (entries concrete, operands any integers -8..8)", R(dict(m=18, n=17, cvals=1), form=[1, 5], alias=[0, 1, 2, 3], T=[5]) + R(dict(m=6, n=19, cvals=1, form=2, base=1), T=[7], novals=[0, 1]) + R(dict(m=18, n=17, novals=1, form=1), alias=[0, 1], T=[5]), R(dict(m=18, n=17, cvals=1), form=[1, 2, 3, 4, 5, 6], alias=[0, 1, 2, 3], base=[0, 1], T=[2, 8]) + cfgs(grid(dict(m=4, n=4, nnz=4), alias=[0, 1, 2]), t=900))
more("P16", "one fixed structure with rows of 0-12 entries, 3-9 columns (entries concrete, operands any integers -8..8)", R(dict(m=9, n=9, cvals=1, form=1), k=[3, 5], lay=[0, 7], pad=[0, 1], T=[5], coef=[1]) + R(dict(m=13, n=12, k=9, cvals=1, form=1, short=1), base=[0, 1], T=[5]) + R(dict(m=12, n=13, k=8, cvals=1, form=2, lay=7, coef=1), T=[5]),
  R(dict(m=13, n=12, cvals=1, coef=1), k=[1, 2, 3, 4, 5, 6, 7, 8, 9], form=[1, 5], lay=[0, 3, 7], T=[3]))
more("P17", FT, R(dict(m=18), form=[1, 3, 4, 5], T=[5, 8], base=[0, 1]) + R(dict(m=17, ext=1), form=[1, 3, 4], T=[5]), R(dict(m=18), form=[1, 2, 3, 4, 5, 6], T=[2, 3, 5, 7], base=[0, 1], ext=[0, 1]) + cfgs(grid(dict(m=4, nnz=7), T=[2, 4], base=[0, 1]), t=900))
more("P18", FT, R(dict(m=18), form=[1, 3, 4, 5], T=[5, 8]) + R(dict(m=17, ext=1, base=1), form=[1, 3, 5], T=[5]), R(dict(m=18), form=[1, 2, 3, 4, 5, 6], T=[2, 3, 7], base=[0, 1], ext=[0, 1]) + cfgs(grid(dict(m=4, nnz=6), T=[2, 4], base=[0, 1]), t=900, **CA))
more("P19", "dimensions up to 4 with 4 and 8 threads", R(dict(max=4), T=[5, 8]), R(dict(max=5), T=[1, 3, 7], base=[0, 1]))
more("P30", FT, [dict(c, opts=["--concaddr"]) for c in R(dict(m=18, n=18, form=1), op=[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16], T=[5]) + R(dict(m=5, n=18, form=2), op=[0, 1, 3, 4, 7, 13], T=[8]) + R(dict(m=18, n=18, form=3), op=[9, 10, 13, 16], T=[8]) + R(dict(m=18, n=18, form=4, cvals=2), op=[12], T=[5, 8]) + R(dict(m=17, n=18, ext=1), op=[1, 9, 10, 13], form=[1], T=[5]) + R(dict(m=2, nnz=3), op=[0, 1, 4, 6, 9, 13], T=[5])],
  [dict(c, opts=["--concaddr"]) for c in R(dict(m=18, n=18), form=[2, 3, 4, 5, 6], op=[0, 1, 3, 4, 5, 6, 9, 10, 11, 13, 16], T=[4, 7])])

# ---- graphs of fixed structure (harness/sx.h, "g"/"shape" 20+): more rows than a bit-vector word, more levels and wider teams; "tog" pairs are present or absent in every combination
GT = "graphs of fixed structure (paths, stars, trees, grids, layers, cliques, scattered edges)"
more("P03", "up to 16 lanes and 8 threads", R({}, lanes=list(range(4, 17)), T=[3]) + R({}, lanes=[9, 16], T=[8]) + R({}, lanes=[0, 1], T=[5, 7, 8]))
more("P06", "comment lines of 900 characters and 40 lines of comments", R(dict(m=3, n=3, nnz=2), comment=[0, 2, 3], mode=[0, 3]))
more("P07", "files of 17 entries of which two have any positions, with one entry too few or too many", R(dict(kind=4, fE=17), mode=[0, 1, 2], type=[0, 2]), R(dict(kind=4, fE=7), csr=[1, 2]))
more("P16", "every mix of row- and column-major padded operands with 4-12 columns", R(dict(m=5, n=6, cvals=1, form=1, pad=1, T=2), lay=list(range(8)), k=[8]) + R(dict(m=5, n=6, cvals=1, form=1, pad=1, T=2), lay=[0, 7], k=[3, 4, 5, 6, 7, 9, 10, 11, 12, 16]))
more("P16", "one fixed structure of up to 6 entries per row with 4-11 columns", R(dict(m=6, n=7, cvals=1, form=1, coef=1), T=[3], k=[4, 6, 7, 10, 11], short=[0, 1]))
more("P19", "grids of 7x5x6, 3x9x2 and 1x2x17 points", R(dict(gx=7, gy=5, gz=6), T=[3, 8]) + R(dict(gx=3, gy=9, gz=2), T=[5], base=[0, 1]) + R(dict(gx=1, gy=2, gz=17), T=[5], base=[0, 1]))
more("P20", GT + " of 18-24 rows with 5-8 threads, parallel and serial level search, with and without barriers, aggregation and fusion, and of 14 rows with 3 threads and any of 8 edge combinations", R(dict(m=20, mmin=20, T=5, thr=4), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) + R(dict(m=24, mmin=24, T=8, thr=1), g=[3, 5, 8, 10, 11], bar=[0, 1]) + R(dict(m=24, mmin=24, T=5, thr=64, agg=1), g=[3, 8, 9]) + R(dict(m=18, mmin=18, T=6, thr=2, api=4, base=1), g=[5, 7, 11]) + R(dict(m=16, mmin=16, T=3, thr=1, fuse=1, tog=3), g=[3, 5, 8]) + R(dict(m=20, mmin=20, T=7, api=1, gcost=4, thr=2), g=[5, 8, 9]),
  R(dict(m=24, mmin=24), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], T=[2, 3, 7], thr=[1, 64], bar=[0, 1], agg=[0, 1]))
more("P21", GT + " of 14-24 rows with 3-8 threads and up to 16 edge combinations", R(dict(m=20, mmin=20, T=5, thr=4), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], tr=[0, 1]) + R(dict(m=24, mmin=24, T=8, thr=2), g=[5, 7, 8, 11], bar=[0, 1]) + R(dict(m=14, mmin=14, T=3, tog=4), g=[5, 7, 8, 11]) + R(dict(m=24, mmin=24, T=4, agg=1), g=[7, 8, 9, 11]) + R(dict(m=20, mmin=20, T=6, api=1, gcost=4), g=[2, 5, 7, 8]),
  R(dict(m=24, mmin=24), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], T=[2, 3, 4, 6, 7], tr=[0, 1], thr=[2, 64]) + R(dict(m=14, mmin=14, tog=8), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], T=[2, 3, 4]))
more("P22", GT + " of 14-24 rows with 3-8 threads and up to 16 edge combinations", R(dict(m=20, mmin=20, T=5, thr=4), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) + R(dict(m=24, mmin=24, T=8), g=[5, 7, 8, 11], tr=[0, 1]) + R(dict(m=14, mmin=14, T=3, tog=4), g=[5, 7, 8, 11]) + R(dict(m=24, mmin=24, T=4, agg=1), g=[7, 8, 9, 11]) + R(dict(m=20, mmin=20, T=6, api=1, gcost=4), g=[2, 5, 7, 8]),
  R(dict(m=24, mmin=24), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], T=[2, 3, 4, 6, 7], tr=[0, 1], thr=[2, 64]) + R(dict(m=14, mmin=14, tog=8), g=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], T=[2, 3, 4]))
SG = [22, 24, 25, 26, 27, 28, 29, 31]
more("P23", GT + " of 40 vertices with 1 thread, and with 3-8 threads in one order of the threads, of 16 vertices with 3 threads and at most 1 delay", R(dict(m=40, mmin=40, T=1, thr=4, diag=0), alg=[0, 1, 2], shape=SG) + R(dict(m=40, mmin=40, T=1, diag=1, base=1, rev=1), alg=[0, 1, 2], shape=[25, 27, 29]) + cfgs(grid(dict(m=40, mmin=40, thr=4, diag=0, ilv=1), alg=[0, 1, 2], T=[3, 5], shape=[24, 25, 27, 28]), **D(0, BCC)) + cfgs(grid(dict(m=40, mmin=40, thr=4, diag=0, ilv=1, T=8), alg=[1], shape=[25, 26, 28, 29]), **D(0, BCC)) + cfgs(grid(dict(m=16, mmin=16, thr=3, diag=0, ilv=1, T=3), alg=[0, 2], shape=[24, 25, 28, 31]), t=40, **D(1, BCC)))
more("P24", GT + " of 20 vertices with 3 and 5 threads and at most 1 delay, of 40 vertices with 8 threads in one order of the threads, with and without hidden vertices", cfgs(grid(dict(m=20, mmin=20, diag=0), T=[3, 5], g=[2, 6, 7, 9]), **D(1, CH)) + cfgs(grid(dict(m=40, mmin=40, diag=0, T=8), g=[2, 4, 5, 6, 7, 9], bv=[0, 2]), **D(0, CH)) + R(dict(m=70, mmin=70, diag=0, T=1), g=[2, 5, 6, 7, 9], bv=[0, 3], base=[0, 1]),
  cfgs(grid(dict(m=16, mmin=16, diag=0), T=[3, 4], g=[2, 5, 6, 7, 9, 11], rev=[0, 1]), t=900, **D(2, CH)))
more("P25", GT + " of 20 rows and 17 columns with 1 thread and any of 4 edge combinations, with 3-8 threads in one order of the threads", R(dict(m=20, mmin=20, n=17, nmin=17, tog=2), T=[1], shape=[22, 24, 25, 26, 27, 28, 29, 31, 32], base=[0, 1]) + R(dict(m=14, mmin=14, n=20, nmin=20, T=1, rev=3), shape=[24, 25, 27, 31, 32]) + cfgs(grid(dict(m=20, mmin=20, n=17, nmin=17, ilv=1), T=[3, 5, 8], shape=[24, 25, 27, 28, 31, 32]), **D(0, BCC)) + cfgs(grid(dict(m=9, mmin=9, n=10, nmin=10, ilv=1, T=3), shape=[24, 25, 31, 32]), t=40, **D(1, BCC)))
more("P29", "files of 20 and 33 values, complete or one short, comment lines of 900 characters and 40 lines of comments", R(dict(kind=3), comment=[0, 1, 2, 3], type=[0, 1]) + R(dict(kind=3, fm=11, fn=3), type=[0, 1]))
more("P33", "files of 9 entries, long and many comments", R(dict(fk=9), op=[1, 2, 3]) + R(dict(fk=9, cut=1), op=[2, 3]) + R(dict(cm=3, nnz=1), op=[2, 3]))
more("P34", "one operation on a vector of 130 bits made by 5 threads", R(dict(mode=0, L=1, T=5), n=[130], nmin=[130]))
more("P35", "a file of 9 rows and 12 entries (two row lengths and one column any values), complete or a word short", R(dict(fm=9, fz=12), mode=[0, 2], base=[0, 1]))
def DR(k, o=dict(opts=[])):  # as D, with the last thread first
    return dict(opts=o["opts"] + ["--rev", "--delays", str(k)])
more("P24", "teams of 6 and 12 threads in descending order with at most 1 delay on paths of 6-16 vertices (trees up to six deep)", cfgs(grid(dict(diag=0), m=[6], mmin=[6], T=[6], g=[1, 2]) + grid(dict(diag=0), m=[12], mmin=[12], T=[12], g=[1, 2, 6]) + grid(dict(diag=0, bv=2), m=[16], mmin=[16], T=[12], g=[1, 2]), **DR(1, CH)))
more("P26", "5-8 threads in descending order with at most 1 delay", cfgs(grid({}, C=[5, 6, 8], H=[1]) + grid({}, C=[2, 3], H=[2]), **DR(1)))
more("P27", "4 and 5 threads in descending order with at most 1 delay", cfgs(grid({}, C=[4, 5], H=[1]) + grid({}, C=[2, 3], H=[2]), **DR(1)))
more("P31", "4 threads in descending order over one wait with at most 1 delay", cfgs(grid(dict(rounds=1, bits=4), C=[4], H=[1]), **DR(1)))
more("P34", "4 threads in descending order with one operation each and at most 2 delays", cfgs(grid(dict(L=1, n=2), T=[4]), **DR(2)))
more("P25", "graphs of fixed structure with 4 and 6 threads in descending order and at most 2 delays", cfgs(grid(dict(m=10, mmin=10, n=9, nmin=9, ilv=1), T=[4, 6], shape=[24, 25, 27, 28, 31]), t=60, **DR(2, BCC)))
more("P23", "graphs of fixed structure with 4 and 6 threads in descending order and at most 2 delays", cfgs(grid(dict(m=10, mmin=10, thr=3, diag=0, ilv=1), T=[4, 6], alg=[0, 2], shape=[24, 25, 27, 28]), t=60, **DR(2, BCC)))
