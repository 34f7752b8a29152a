"""What each property is decided with: binaries (translation units, flavour) and runs (time and case budgets)."""
MAIN = ('lib/pbt_main.cpp', [])
KALL = ('lib/kern_all.cpp', [])
TYPES = [('int32_t', 'uint64_t'), ('int64_t', 'double'), ('uint32_t', 'float'), ('int32_t', 'int32_t')]
MORE = TYPES + [('int32_t', 'int8_t'), ('int64_t', 'W12')]      # 1-byte values; 12-byte values that are no numbers

def ku(group, it, nt):
    return ('harness/kern_unit.cpp', ['-DKU_GROUP=%d' % group, '-DKU_IT=%s' % it, '-DKU_NT=%s' % nt])

def kus(groups, types=TYPES):
    return [ku(g, i, n) for g in groups for i, n in types]

def mult(prop):
    return ('harness/mult.cpp', ['-DMULT_PROP=%d' % prop])

BINARIES, PROPS = {}, {}

def both(name, units, **kw):
    """the same program built optimised and with address/undefined-behaviour sanitizers"""
    BINARIES[name] = dict(units=units, **kw)
    BINARIES[name + '_asan'] = dict(units=units, flavour='asan', **kw)

def run(b, time, cases, **kw):
    d = dict(bin=b, time=time, cases=cases); d.update(kw); return d

both('one_phase', [MAIN, KALL, mult(1)] + kus([0, 10], MORE))
both('two_phase', [MAIN, KALL, mult(2)] + kus([1, 11], MORE))
both('complemented', [MAIN, KALL, mult(3)] + kus([2, 3], MORE))
both('pull', [MAIN, KALL, mult(4)] + kus([4], MORE))
both('hybrid', [MAIN, KALL, mult(5)] + kus([5], MORE))
PROPS['C01'] = dict(runs=[run('one_phase', 25, 60000)])
PROPS['C02'] = dict(runs=[run('two_phase', 25, 60000)])
PROPS['C03'] = dict(runs=[run('complemented', 25, 60000)])
PROPS['C04'] = dict(runs=[run('pull', 20, 60000)])
PROPS['C05'] = dict(runs=[run('hybrid', 20, 60000)])
both('wellformed', [MAIN, KALL, mult(6)] + kus([0, 10, 1, 11, 2, 3, 4, 5]))
PROPS['C06'] = dict(runs=[run('wellformed', 25, 60000)])
both('memory', [MAIN, KALL, mult(9)] + kus([0, 10, 1, 11, 2, 3, 4, 5], TYPES[:2] + MORE[5:]))
PROPS['C09'] = dict(runs=[run('memory_asan', 25, 60000), run('memory', 10, 60000)])
def hist(it, nt, leak=False):
    return ('harness/hist.cpp', ['-DHIST_IT=' + it, '-DHIST_NT=' + nt] + (['-DHIST_LEAK'] if leak else []))
both('history', [MAIN, KALL, hist('int32_t', 'uint64_t')])
BINARIES['leak'] = dict(units=[MAIN, KALL, hist('int64_t', 'int64_t', True), ('lib/alloc_count.cpp', [])])
PROPS['C08'] = dict(runs=[run('history', 18, 60000), run('history_asan', 10, 30000)])
PROPS['C27'] = dict(runs=[run('leak', 25, 60000)])
def leg(group, types=TYPES[:3]):
    return [('harness/legacy_unit.cpp', ['-DKU_GROUP=%d' % group, '-DKU_IT=%s' % i, '-DKU_NT=%s' % n]) for i, n in types]
both('baseline', [MAIN, KALL, mult(10)] + leg(6, TYPES[:3] + MORE[4:]))
both('unmasked', [MAIN, KALL, mult(11)] + leg(7, TYPES[:3] + MORE[4:]) + leg(8, [('int32_t', 'double')]))
PROPS['C10'] = dict(runs=[run('baseline', 20, 60000), run('baseline_asan', 10, 30000)])
PROPS['C11'] = dict(runs=[run('unmasked', 20, 60000), run('unmasked_asan', 10, 30000)])
both('laws', [MAIN, KALL, ('harness/laws.cpp', [])] + kus([0, 10, 1, 11, 2, 3, 4, 5], TYPES[:2]) + leg(6, TYPES[:2]) + leg(7, TYPES[:2]))
PROPS['C26'] = dict(runs=[run('laws', 25, 200000)], technique='property-based testing: metamorphic relations between generated products, tape shrinking')
both('accum', [MAIN, ('harness/accum.cpp', [])])
PROPS['C12'] = dict(runs=[run('accum', 12, 2000000), run('accum_asan', 12, 1000000)], technique='stateful property-based testing: operation sequences against map and priority-queue models, tape shrinking')
both('scans', [MAIN, ('harness/scan.cpp', [])])
PROPS['C13'] = dict(runs=[run('scans', 12, 300000), run('scans_asan', 12, 100000)], technique='property-based testing of the prefix sums against their definition, tape shrinking')
both('work', [MAIN, ('harness/work.cpp', [])])
PROPS['C14'] = dict(runs=[run('work', 14, 300000), run('work_asan', 12, 100000)], technique='property-based testing: counts, splits and bounds against direct counts over the generated operands, tape shrinking')
for _p, _n in ((15, 'convert'), (16, 'construct'), (17, 'ops')):
    both(_n, [MAIN, ('harness/storage.cpp', ['-DST_PROP=%d' % _p])])
    PROPS['C%d' % _p] = dict(runs=[run(_n, 12, 400000), run(_n + '_asan', 12, 200000)], technique='property-based testing of the storage classes against host-side models, tape shrinking')
both('grb', [MAIN, ('harness/grb.cpp', [])])
PROPS['C19'] = dict(runs=[run('grb', 14, 300000), run('grb_asan', 12, 200000)], technique='stateful property-based testing: histories of exchanges with GraphBLAS against a model, tape shrinking')
both('files', [MAIN, ('harness/io.cpp', [])])
PROPS['C18'] = dict(runs=[run('files', 14, 400000), run('files_asan', 12, 200000)], technique='property-based testing: generated matrix files against the entries written into them, tape shrinking')
BINARIES['triangles'] = dict(units=[MAIN, ('harness/bench.cpp', ['-DBENCH=20']), ('harness/bench.cpp', ['-DBENCH=201'])])
BINARIES['truss'] = dict(units=[MAIN, ('harness/bench.cpp', ['-DBENCH=21'])])
BINARIES['centrality'] = dict(units=[MAIN, ('harness/bench.cpp', ['-DBENCH=22'])])
def cnt(us): return [(u[0], u[1] + ['-DCOUNT_OPS']) for u in us]
BINARIES['admitted'] = dict(units=[MAIN, KALL, mult(31)] + cnt(kus([0, 10, 1, 11, 2, 3, 4, 5], TYPES[:2]) + leg(6, TYPES[:2]) + leg(7, TYPES[:2])))
PROPS['C31'] = dict(runs=[run('admitted', 25, 60000)], technique='property-based testing: operator calls counted over generated operands, against the products the mask admits, tape shrinking')
_E = 'property-based testing: generated graph files through the benchmark programs, against the definition computed directly, tape shrinking'
PROPS['C20'] = dict(runs=[run('triangles', 25, 200000)], technique=_E)
PROPS['C21'] = dict(runs=[run('truss', 25, 200000)], technique=_E)
PROPS['C22'] = dict(runs=[run('centrality', 25, 200000)], technique=_E)
both('sorts', [MAIN] + [('harness/sorts.cpp', ['-DSORTS=%d' % i]) for i in range(1, 9)])
PROPS['C23'] = dict(runs=[run('sorts', 16, 4000000), run('sorts_asan', 14, 2000000)], technique='property-based testing: generated arrays through every sort against std::stable_sort, tape shrinking')
both('util', [MAIN, ('harness/util.cpp', [])])
PROPS['C25'] = dict(runs=[run('util', 12, 2000000), run('util_asan', 14, 1000000)], technique='stateful property-based testing of buffers, bit maps and containers against models, tape shrinking')
_PS = [('$REPO/PaRMAT/src/%s.cpp' % f, []) for f in ('GraphGen_notSorted', 'GraphGen_sorted', 'utils', 'Square', 'Edge')]
_G = '$REPO/GTgraph/'
_SP = [(_G + 'sprng2.0-lite/src/%s.c' % f, ['-DAdd_', '-drop-fopenmp', '-drop-I$REPO', '-I' + _G + 'sprng2.0-lite/src', '-fno-sanitize=undefined']) for f in ('sprng/sprng', 'lcg/lcg', 'lfg/lfg', 'lcg64/lcg64', 'mlfg/mlfg', 'cmrg/cmrg', 'primes_32', 'primes_64', 'fwrap_mpi', 'cputime', 'makeseed', 'simple_mpi', 'memory', 'communicate', 'checkid', 'store')]
_RM = [(_G + 'R-MAT/%s.c' % f, ['-drop-fopenmp', '-drop-I$REPO', '-fno-sanitize=shift']) for f in ('graph', 'utils', 'init', 'globals')] + [(_G + 'R-MAT/drive.c', ['-drop-fopenmp', '-Dmain=gtrmat_main'])]
both('parmat', [MAIN, ('harness/gengraph.cpp', []), ('harness/parmat_main.cpp', []), ('harness/rmatgen.cpp', [])] + _PS + _RM + _SP)
PROPS['C24'] = dict(runs=[run('parmat', 14, 400000), run('parmat_asan', 12, 400000)], technique='property-based testing of the generators against their parameters (replayable randomness), tape shrinking')
for _gt, _dir, _n in ((1, 'random', 'ergraph'), (2, 'SSCA2', 'ssca2')):
    both(_n, [MAIN, ('harness/gtgen.cpp', ['-DGT=%d' % _gt])] + [(_G + '%s/%s.c' % (_dir, f), ['-drop-fopenmp', '-drop-I$REPO', '-fno-sanitize=shift']) for f in ('graph', 'utils', 'init', 'globals')] + [(_G + _dir + '/drive.c', ['-drop-fopenmp', '-Dmain=gt_main'])] + _SP)
PROPS['C28'] = dict(runs=[run('ergraph', 6, 400000), run('ergraph_asan', 6, 400000), run('ssca2', 6, 400000), run('ssca2_asan', 6, 400000)], technique='property-based testing of the generators against their parameters, tape shrinking')
_PG = ['sample/HashSpGEMM', 'sample/HeapSpGEMM', 'sample/InnerSpGEMM', 'sample/MaskedHashSpGEMM', 'sample/MaskedSPASpGEMM', 'sample/NUMA-aware', 'sample/OuterSpGEMM', 'sample/OuterSpGEMM2', 'sample/ProfileOuterSpGEMM', 'sample/ProfileOuterSpGEMM2', 'sample/GenMatrices', 'sample/all_parallel_tc', 'sample/blocked_parallel_tc', 'benchmarks/MaskedAllSpGEMM', 'benchmarks/ComplementMaskedSpGEMM']
for _i, _n in enumerate(_PG):
    BINARIES['prog%d_asan' % _i] = dict(flavour='asan', units=[MAIN, ('harness/programs.cpp', ['-DPROG=%d' % _i, '-DPROG_FILE=%s.cpp' % _n, '-DCPP'])] + _PS + _RM[:-1] + _SP)
PROPS['C29'] = dict(runs=[run('prog%d_asan' % _i, 2, 100000) for _i in range(len(_PG))], technique='property-based testing: generated matrix files through the multiplication programs, against the product computed from the definition, tape shrinking')
both('streams', [MAIN, ('harness/streams.cpp', [])] + _SP)
PROPS['C30'] = dict(runs=[run('streams', 12, 400000), run('streams_asan', 12, 400000)], technique='model-based property testing: histories of stream operations against the generators by definition, tape shrinking')
SIM = ('lib/simomp.cpp', [])
HOOK = ('lib/sim_hook.cpp', [])
BINARIES['sched'] = dict(flavour='sched', libs=[], units=[MAIN, KALL, SIM, ('harness/sched.cpp', [])] + kus([0, 10, 1, 11, 2, 3, 4, 5], TYPES[:2]) + leg(6, TYPES[:1]) + leg(7, TYPES[:1]) + leg(8, [('int32_t', 'double')]))
BINARIES['sched_scan'] = dict(flavour='sched', libs=[], units=[MAIN, SIM, HOOK, ('harness/scan.cpp', [])])
BINARIES['sched_work'] = dict(flavour='sched', libs=[], units=[MAIN, SIM, HOOK, ('harness/work.cpp', [])])
for _p, _n in ((15, 'convert'), (16, 'construct'), (17, 'ops')):
    BINARIES['sched_' + _n] = dict(flavour='sched', libs=[], units=[MAIN, SIM, HOOK, ('harness/storage.cpp', ['-DST_PROP=%d' % _p])])
PROPS['C07'] = dict(runs=[run('sched', 25, 400000), run('sched_scan', 4, 100000), run('sched_work', 4, 100000), run('sched_convert', 3, 100000), run('sched_construct', 3, 100000), run('sched_ops', 3, 100000)],
    technique='property-based testing of thread schedules: a simulated OpenMP runtime drives generated interleavings, with a happens-before race oracle and comparison with the one-thread result, tape shrinking',
    note='Search over generated operands and schedules, not a proof. Trusts the simulated runtime (lib/simomp.cpp) to follow the OpenMP rules; accesses the compiler removes at -O1 are not seen, and relaxed-memory effects beyond races are not modelled.')
NA = {}
