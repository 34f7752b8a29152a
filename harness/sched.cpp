// C07: the same product for every team size and interleaving, and no data race, under the simulated OpenMP runtime.
#include "kern.h"
#include "simomp.h"
#include <omp.h>
using namespace gen; using namespace kern;
namespace kern { int g_nblockers = 1, g_blockwidth = 1; }
namespace pbt { const char *g_rule =
    "one case = one generated problem (operands of the product checks, smaller), one algorithm and index/value type pair, multiplied once by one thread and then under 2-4 schedules of a simulated OpenMP runtime: a team of 2-36 (or the default size, or fewer threads than requested, or inside a parallel region of the caller, several callers at once), "
    "the order in which threads run and where they are preempted (never, at 1-5 chosen memory accesses, or every 1-1000 accesses on average) drawn from the tape. Every memory access of the compiled code inside a team is recorded; two unordered accesses of which one writes are a race. The results must be equal to the one-thread result bit for bit, in the same order. "
    "Non-trivial: a team of at least two ran, at least two rows have work, and the result is not empty; distinct by the list of generator draws"; }
static std::string diff(const Out &a, const Out &b) {
    if (a.ptr != b.ptr) { size_t i = 0; while (i < a.ptr.size() && i < b.ptr.size() && a.ptr[i] == b.ptr[i]) ++i; return strf("row offset %zu is %ld instead of %ld", i, i < b.ptr.size() ? (long)b.ptr[i] : -1, i < a.ptr.size() ? (long)a.ptr[i] : -1); }
    for (size_t i = 0; i < a.col.size(); ++i) if (a.col[i] != b.col[i]) return strf("entry %zu is in column %ld instead of %ld", i, (long)b.col[i], (long)a.col[i]);
    for (size_t i = 0; i < a.bits.size(); ++i) if (a.bits[i] != b.bits[i]) return strf("entry %zu has another value", i);
    return ""; }
static void canonical(Out &o) { for (size_t i = 0; i + 1 < o.ptr.size(); ++i) { std::vector<std::pair<int64_t, uint64_t>> r; for (int64_t k = o.ptr[i]; k < o.ptr[i + 1]; ++k) r.push_back({o.col[k], o.bits[k]}); std::sort(r.begin(), r.end()); for (size_t k = 0; k < r.size(); ++k) { o.col[o.ptr[i] + k] = r[k].first; o.bits[o.ptr[i] + k] = r[k].second; } } }
static void go(pbt::Tape &t, pbt::Ctx &ctx, std::initializer_list<int> groups, int mode, bool legacy) {
    static std::map<std::vector<int>, std::vector<const Kernel *>> cache; auto &ks = cache[std::vector<int>(groups)];
    if (ks.empty()) for (auto &k : all()) for (int g : groups) if (k.group == g) ks.push_back(&k);
    const Kernel *k = ks[t.draw(ks.size())]; bool outer = k->group == OUTER;
    ProblemOpts o; o.small = true; o.maxShape = 6; if (k->needsSorted) o.unsortedA = o.unsortedB = o.unsortedM = false; if (outer) { o.nsemi = 1; g_nblockers = (int)genDim(t, 40); g_blockwidth = (int)genDim(t, 40); }
    Problem p = genProblem(t, o); if (outer && strstr(k->name, "OuterSpGEMM2") && (p.A.r != p.A.c || p.A.r >= 65536 || p.B.c >= 65536)) throw pbt::Discard{"outside the domain"}; if (outer && (p.A.r > g_nblockers * 4096ll || p.B.c > 1 << 20)) throw pbt::Discard{"outside the domain"};      // rows of a block are numbered with 12 bits, columns with 20
    Facts f = facts(p, mode); if (f.products > 20000) throw pbt::Discard{"too large for the simulated runtime"};
    int work = 0; for (int64_t i = 0; i < p.A.r; ++i) work += p.A.ptr[i + 1] > p.A.ptr[i];
    ctx.note(strf("%s (%s) ", k->name, k->types) + describe(p));
    Args a; a.p = &p; a.keep = true; a.checkValues = true; Problem one = p; one.threads = 1; a.p = &one; sim::Schedule s0; sim::begin(s0); Out base = k->run(a); sim::end();
    if (!base.err.empty()) pbt::fail("%s (%s), one thread: %s", k->name, k->types, base.err.c_str());
    ctx.label(k->name); int runs = 2 + t.draw(3); a.checkValues = false; bool team = false;
    for (int r = 0; r < runs; ++r) { sim::Schedule s = sim::draw(t); Problem q = p; q.threads = 2 + (r ? t.draw(t.chance(1, 8) ? 35 : 8) : (p.threads + 1) % 12); a.p = &q; a.useDefaultThreads = t.chance(1, 6);
        int callers = !legacy && t.chance(1, 8) ? 2 + (int)t.draw(3) : 0; if (!callers && !legacy && t.chance(1, 8)) s.granted = 1 + (int)t.draw(q.threads);
        ctx.note(strf("; %u threads%s%s, ", q.threads, a.useDefaultThreads ? " by default" : "", callers ? strf(", called by %d threads", callers).c_str() : "") + sim::str(s)); omp_set_num_threads((int)q.threads);
        std::vector<Out> outs(std::max(1, callers)); sim::begin(s);
        if (callers) {
#pragma omp parallel num_threads(callers)
            { int me = omp_get_thread_num(); Args b = a; b.keep = true; outs[me] = k->run(b); } }
        else outs[0] = k->run(a);
        std::string race = sim::end(); auto &st = sim::stats(); team = team || st.teams > 0;
        ctx.label(callers ? "several callers" : s.granted ? "fewer threads granted" : st.switches > 2 * st.teams ? "interleaved" : "one thread after the other");
        bool anyOrder = legacy && !k->promisesSorted; if (anyOrder) canonical(base);    // the baselines that do not sort may order a row as they like
        for (auto &x : outs) { if (anyOrder && x.err.empty()) canonical(x); if (!x.err.empty()) pbt::fail("%s (%s), %u threads: %s", k->name, k->types, q.threads, x.err.c_str());
            std::string d = diff(base, x); if (!d.empty()) pbt::fail("%s (%s), %u threads: differs from the result of one thread: %s", k->name, k->types, q.threads, d.c_str()); }
        if (!race.empty()) pbt::fail("%s (%s), %u threads: %s", k->name, k->types, q.threads, race.c_str()); }
    ctx.nontrivial = team && work > 1 && base.nnz > 0; }
PBT_PROP(sched_1p, 3) { go(t, ctx, {G1P}, 0, false); }
PBT_PROP(sched_2p, 3) { go(t, ctx, {G2P}, 0, false); }
PBT_PROP(sched_complemented, 3) { go(t, ctx, {C1P, C2P}, 1, false); }
PBT_PROP(sched_pull, 2) { go(t, ctx, {INNER}, 0, false); }
PBT_PROP(sched_hybrid, 1) { go(t, ctx, {POLY}, 0, false); }
PBT_PROP(sched_baseline, 2) { go(t, ctx, {LEGACY}, 0, true); }
PBT_PROP(sched_unmasked, 2) { go(t, ctx, {UNMASKED}, 2, true); }
PBT_PROP(sched_outer, 1) { go(t, ctx, {OUTER}, 2, true); }
