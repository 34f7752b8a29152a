// C14: operation counts, work split, per-range bounds and result assembly against counts taken directly from the generated operands.
#include <numeric>
#include <cstring>
#include <cassert>
#include <tuple>
#include <array>
#include <malloc.h>
#include "CSR.h"
#include "CSC.h"
#include "Triple.h"
#include "BIN.h"
#include "multiply.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "heap_mult_generic.h"
namespace ns_inner {
#include "inner_mult.h"
}
namespace ns_heap {
#include "heap_mult.h"
}
#include "kern.h"
#include "kern_impl.h"
using namespace gen; using namespace pbt;
namespace pbt { const char *g_rule =
    "one case = generated A, B, M (the shapes and fillings of the product checks) or a generated list of per-row work, an index/value type pair and a team size 1-36 (including more threads than rows). Checked: every operation count (plain, masked, dot-product, the counts of the heap, inner, outer and hash baselines) per row and in total; "
    "the row split for every thread (starts at 0, ends at the last row, neighbours meet, no range exceeds an even share plus one row and the division remainder); the per-range bounds in every combination of the requested figures; the hash baseline's bins; and the assembly of row offsets and entries from per-thread pieces handed over in a generated order. "
    "Non-trivial: at least two rows with work and more than one thread; distinct by the list of generator draws"; }

struct Counts { std::vector<int64_t> row, mrow, dot; int64_t tot = 0, mtot = 0, dtot = 0; int rowsWithWork = 0; };
static Counts count(const HMat &A, const HMat &B, const HMat &M) {
    Counts c; std::vector<int64_t> colLen(B.c, 0); for (auto x : B.col) colLen[x]++;
    for (int64_t i = 0; i < A.r; ++i) { int64_t n = 0, d = 0; for (int64_t k = A.ptr[i]; k < A.ptr[i + 1]; ++k) n += B.ptr[A.col[k] + 1] - B.ptr[A.col[k]];
        int64_t la = A.ptr[i + 1] - A.ptr[i]; for (int64_t k = M.ptr[i]; k < M.ptr[i + 1]; ++k) if (la && colLen[M.col[k]]) d += la + colLen[M.col[k]];
        int64_t m = M.ptr[i + 1] > M.ptr[i] ? n : 0; c.row.push_back(n); c.mrow.push_back(m); c.dot.push_back(d); c.tot += n; c.mtot += m; c.dtot += d; c.rowsWithWork += n > 0; }
    return c; }
template<class IT> static void same(const char *w, const std::vector<IT> &got, const std::vector<int64_t> &want) { PBT_CHECK(got[got.size() - 1] == (IT)91, "%s wrote past its %zu rows", w, want.size());
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK((int64_t)got[i] == want[i], "%s: row %zu is %lld, the row has %lld", w, i, (long long)got[i], (long long)want[i]); }
static void total(const char *w, long long got, long long want) { PBT_CHECK(got == want, "%s returned %lld, the count is %lld", w, got, want); }

template<class IT> static void splitCheck(const char *w, const std::vector<std::pair<IT, IT>> &rg, const std::vector<int64_t> &work, int64_t rows) {
    int64_t at = 0, tot = 0, mx = 0; for (auto x : work) { tot += x; mx = std::max(mx, x); } int T = rg.size();
    for (int i = 0; i < T; ++i) { PBT_CHECK((int64_t)rg[i].first == at, "%s: range %d of %d starts at %lld, the previous one ended at %lld", w, i, T, (long long)rg[i].first, (long long)at);
        PBT_CHECK(rg[i].second >= rg[i].first && (int64_t)rg[i].second <= rows, "%s: range %d is [%lld,%lld) of %lld rows", w, i, (long long)rg[i].first, (long long)rg[i].second, (long long)rows); at = rg[i].second;
        int64_t s = 0; for (int64_t r = rg[i].first; r < (int64_t)rg[i].second; ++r) s += work[r]; PBT_CHECK(s <= tot / T + mx + T, "%s: range %d of %d holds %lld of %lld operations (largest row %lld)", w, i, T, (long long)s, (long long)tot, (long long)mx); }
    PBT_CHECK(at == rows, "%s: the ranges end at row %lld of %lld", w, (long long)at, (long long)rows); }

template<class IT, class NT, bool c, bool u, bool a, bool m, bool f, class WT> static void scanOne(int64_t b, int64_t e, std::vector<WT> &fl, CSR<IT, NT> &A, CSR<IT, NT> &B, CSR<IT, NT> &M, const Problem &p, const std::vector<int64_t> &flops) {
    auto [sz, ra, rm, rf] = scanInputs<c, u, a, m, f>((IT)b, (IT)e, fl.data(), A, B, M); int64_t wsz = 0, wa = 0, wm = 0, wf = 0;
    for (int64_t i = b; i < e; ++i) { int64_t lm = p.M.ptr[i + 1] - p.M.ptr[i], la = p.A.ptr[i + 1] - p.A.ptr[i]; int64_t fi = std::min(flops[i], p.B.c); if (u) wsz += c ? fi : std::min(fi, lm); if (a) wa = std::max(wa, la); if (m) wm = std::max(wm, lm); if (f) wf = std::max(wf, fi); }
    PBT_CHECK((int64_t)sz == wsz && (int64_t)ra == wa && (int64_t)rm == wm && (int64_t)rf == wf, "scanInputs<%d,%d,%d,%d,%d> on rows [%ld,%ld): (%lld,%lld,%lld,%lld), expected (%lld,%lld,%lld,%lld)", c, u, a, m, f, (long)b, (long)e,
        (long long)sz, (long long)ra, (long long)rm, (long long)rf, (long long)wsz, (long long)wa, (long long)wm, (long long)wf); }
template<class IT, class NT, int bits = 0, class WT> static void scanAll(int which, int64_t b, int64_t e, std::vector<WT> &fl, CSR<IT, NT> &A, CSR<IT, NT> &B, CSR<IT, NT> &M, const Problem &p, const std::vector<int64_t> &flops) {
    if constexpr (bits < 32) { if (which < 0 || which == bits) scanOne<IT, NT, bits & 1, (bits >> 1) & 1, (bits >> 2) & 1, (bits >> 3) & 1, (bits >> 4) & 1>(b, e, fl, A, B, M, p, flops); scanAll<IT, NT, bits + 1>(which, b, e, fl, A, B, M, p, flops); } }

template<class IT, class WT> static std::vector<std::pair<IT, IT>> split(const std::vector<int64_t> &work, int T, int64_t tot) {
    std::vector<WT> w(work.begin(), work.end()), acc(work.size()); exclusiveScan<WT>(w.data(), w.size(), acc.data(), 1); std::vector<std::pair<IT, IT>> r;
    for (int t = 0; t < T; ++t) { auto [b, e] = distributeWork<IT>((WT)tot, acc.data(), (IT)work.size(), T, t); r.push_back({b, e}); } return r; }

template<class IT, class NT, class WT> static void counts(Tape &t, Ctx &ctx) {
    ProblemOpts o; o.nsemi = 1; o.aliasPatterns = t.chance(1, 4); Problem p = genProblem(t, o); int T = p.threads; omp_set_dynamic(0); omp_set_num_threads(T);
    Counts c = count(p.A, p.B, p.M); ctx.note(strf("threads=%d A=", T) + p.A.str(160) + " B=" + p.B.str(160) + " M=" + p.M.str(160)); ctx.nontrivial = c.rowsWithWork > 1 && T > 1; ctx.label(strf("shape-%d", p.shape)); if (T > p.A.r) ctx.label("more-threads-than-rows");
    CSR<IT, NT> A, B, M; kernimpl::toCSR(p.A, A); kernimpl::toCSR(p.B, B); kernimpl::toCSR(p.M, M); kernimpl::CscHolder<IT, NT> Bc(p.B), Ac(p.A); std::vector<IT> per(p.A.r + 1); std::vector<WT> wper;
    auto reset = [&](size_t n) { per.assign(n + 1, (IT)77); per[n] = (IT)91; }; auto wreset = [&](size_t n) { wper.assign(n + 1, (WT)77); wper[n] = (WT)91; }; size_t R = p.A.r;
    wreset(R); total("calculateFlops(A,B)", calculateFlops(A, B, wper.data(), T), c.tot); same("calculateFlops(A,B)", wper, c.row); std::vector<WT> plain(wper.begin(), wper.end() - 1);
    wreset(R); total("calculateFlops(A,B,M)", calculateFlops(A, B, M, wper.data(), T), c.mtot); same("calculateFlops(A,B,M)", wper, c.mrow); std::vector<WT> masked(wper.begin(), wper.end() - 1);
    wreset(R); total("calculateWork", calculateWork(A, Bc.m, M, wper.data(), T), c.dtot); same("calculateWork", wper, c.dot);
    total("calculateMultOps", calculateMultOps(A, B, T), c.tot); total("calculateMultOps (default threads)", calculateMultOps(A, B), c.tot);
    total("get_flop(CSR,CSR)", get_flop(A, B), 2 * c.tot); total("get_flop(CSC,CSR)", get_flop(Ac.m, B), 2 * c.tot);
    reset(R); total("getFlop(heap)", tmp::getFlop(A, B, per.data()), 2 * c.tot); same("getFlop(heap)", per, c.row);
    std::vector<int64_t> colw(p.B.c, 0); { HMat bt = transpose(p.B); std::vector<int64_t> al(p.A.c, 0); for (auto x : p.A.col) al[x]++; for (int64_t j = 0; j < p.B.c; ++j) for (int64_t k = bt.ptr[j]; k < bt.ptr[j + 1]; ++k) colw[j] += al[bt.col[k]]; }
    reset(p.B.c); total("get_flop(heap, CSC)", ns_heap::get_flop(Ac.m, Bc.m, per.data()), 2 * c.tot); same("get_flop(heap, CSC)", per, colw); total("get_flop(heap, CSC, no rows)", ns_heap::get_flop(Ac.m, Bc.m), 2 * c.tot);
    reset(p.B.c); total("get_flop(inner, CSC)", ns_inner::get_flop(Ac.m, Bc.m, per.data()), 2 * c.tot); same("get_flop(inner, CSC)", per, colw);
    // the split of each kind of work, and the bounds of its ranges
    for (auto *w : {&c.row, &c.mrow, &c.dot}) { int64_t tot = w == &c.row ? c.tot : w == &c.mrow ? c.mtot : c.dtot; auto rg = split<IT, WT>(*w, T, tot); splitCheck<IT>("distributeWork", rg, *w, R);
        if (w == &c.dot) continue; auto &fl = w == &c.row ? plain : masked;
        for (int i = 0; i < (int)std::min<size_t>(rg.size(), 6); ++i) { int q = t.draw(rg.size()); scanAll<IT, NT>(R < 64 ? -1 : (int)t.draw(32), rg[q].first, rg[q].second, fl, A, B, M, p, *w);
            int64_t e = 0; for (int64_t r = rg[q].first; r < (int64_t)rg[q].second; ++r) e += std::min((*w)[r], p.M.ptr[r + 1] - p.M.ptr[r]); std::vector<IT> fi(fl.begin(), fl.end()); total("estimateResultSize", estimateResultSize<IT, NT>(rg[q].first, rg[q].second, fi.data(), A, B, M), e); } }
    // bins of the hash baselines
    { IT minHt = (IT)(1 << t.draw(5)); int ctor = t.draw(3); BIN<IT, NT> bin = [&]() -> BIN<IT, NT> { if (ctor == 0) return BIN<IT, NT>((IT)R); if (ctor == 1) return BIN<IT, NT>((IT)R, minHt); return BIN<IT, NT>((IT)R, minHt, T); }(); IT mh = ctor == 0 ? 8 : minHt;
      PBT_CHECK((int)bin.thread_num == T && bin.min_ht_size == mh, "BIN: %d threads, smallest table %d; expected %d, %d", (int)bin.thread_num, (int)bin.min_ht_size, T, (int)mh);
      bin.set_max_bin(A.rowptr, A.colids, B.rowptr, A.rows, B.cols); total("BIN total", bin.total_intprod, c.tot); std::vector<std::pair<IT, IT>> rg; for (int i = 0; i < T; ++i) rg.push_back({bin.rows_offset[i], bin.rows_offset[i + 1]});
      for (size_t i = 0; i < R; ++i) PBT_CHECK((int64_t)bin.row_nz[i] == c.row[i], "BIN: row %zu counts %lld, has %lld", i, (long long)bin.row_nz[i], (long long)c.row[i]);
      splitCheck<IT>("BIN", rg, c.row, R);
      auto bins = [&](const char *when) { for (size_t i = 0; i < R; ++i) { int64_t n = std::min<int64_t>(bin.row_nz[i], p.B.c); int w = 0; if (n) { w = 1; while (((int64_t)mh << (w - 1)) < n) ++w; } PBT_CHECK(bin.bin_id[i] == w, "BIN %s: row %zu with %lld entries is in bin %d, expected %d", when, i, (long long)n, bin.bin_id[i], w); } }; bins("set_max_bin");
      bin.create_local_hash_table(B.cols);
      for (int i = 0; i < T; ++i) { int64_t mx = 0; for (int64_t r = rg[i].first; r < (int64_t)rg[i].second; ++r) mx = std::max(mx, std::min<int64_t>(c.row[r], p.B.c)); if (!mx) continue; int64_t sz = mh; while (sz < mx) sz <<= 1;
          PBT_CHECK(malloc_usable_size(bin.local_hash_table_id[i]) >= sz * sizeof(IT) && malloc_usable_size(bin.local_hash_table_val[i]) >= sz * sizeof(NT), "BIN: table of thread %d is too small for %lld slots", i, (long long)sz); }
      for (size_t i = 0; i < R; ++i) bin.row_nz[i] = (IT)t.draw(std::min<int64_t>(p.B.c, c.row[i]) + 1); bin.set_min_bin(A.rows, B.cols); bins("set_min_bin"); }
    kernimpl::freeCSR(A); kernimpl::freeCSR(B); kernimpl::freeCSR(M); Ac.m.make_empty(); Bc.m.make_empty(); }

template<class IT, class WT> static void splits(Tape &t, Ctx &ctx) {      // work lists no small matrix has
    size_t n = 1 + (t.chance(1, 6) ? t.draw(3000) : t.draw(40)); int T = genThreads(t, n), style = t.draw(6); std::vector<int64_t> w; RngSrc rs(t.draw(0)); int64_t cap = sizeof(WT) == 4 ? (1ll << 31) - 1 : (1ll << 40), left = cap;
    for (size_t i = 0; i < n; ++i) { Src &s = n <= 41 ? (Src &)t : rs; int64_t v; switch (style) { case 0: v = s.draw(10); break; case 1: v = s.chance(1, 8) ? 1 : 0; break; case 2: v = s.chance(1, 10) ? s.draw(left + 1) : 0; break; case 3: v = 0; break; case 4: v = i + 1 == n || i == 0 ? s.draw(1000) : 0; break; default: v = s.draw(cap / n + 1); } v = std::min(v, left); left -= v; w.push_back(v); }
    int64_t tot = cap - left; ctx.nontrivial = tot > 1 && T > 1 && n > 1; ctx.note(strf("%zu rows of work (style %d), total %lld, %d threads", n, style, (long long)tot, T)); ctx.label(strf("work-style-%d", style));
    splitCheck<IT>("distributeWork", split<IT, WT>(w, T, tot), w, n); }

template<class IT, class NT> static void assemble(Tape &t, Ctx &ctx) {
    int64_t rows = 1 + t.draw(30), cols = 1 + t.draw(60); HMat want = genMat(t, rows, cols, 400, ValSpec(), true); int T = genThreads(t, rows); std::vector<int64_t> cut{0}; for (int i = 1; i < T; ++i) cut.push_back(t.draw(rows + 1)); cut.push_back(rows); std::sort(cut.begin(), cut.end());
    HMat dim; dim.r = rows; dim.c = 3; dim.ptr.assign(rows + 1, 0); HMat dimB; dimB.r = 3; dimB.c = cols; dimB.ptr.assign(4, 0); CSR<IT, NT> A, B, C; kernimpl::toCSR(dim, A); kernimpl::toCSR(dimB, B);
    int old = t.draw(4); if (old == 1) kernimpl::toCSR(want, C); bool alias = old == 2; if (alias) kernimpl::toCSR(dim, C); CSR<IT, NT> &rA = alias ? C : A;
    std::vector<IT> nv(T), rn(rows); for (int64_t i = 0; i < rows; ++i) rn[i] = (IT)(want.ptr[i + 1] - want.ptr[i]); for (int i = 0; i < T; ++i) nv[i] = (IT)(want.ptr[cut[i + 1]] - want.ptr[cut[i]]);
    ctx.note(strf("assemble by %d threads ", T) + want.str(200)); ctx.nontrivial = T > 1 && want.nnz() > 1; ctx.label("assembly");
    initC(rA, B, C, nv.data(), T); PBT_CHECK((int64_t)C.rows == rows && (int64_t)C.cols == cols && (int64_t)C.nnz == want.nnz(), "initC: %lld x %lld, %lld entries; expected %ld x %ld, %ld", (long long)C.rows, (long long)C.cols, (long long)C.nnz, (long)rows, (long)cols, (long)want.nnz());
    std::vector<int> ord(T); for (int i = 0; i < T; ++i) ord[i] = i; for (int i = T; i > 1; --i) std::swap(ord[i - 1], ord[t.draw(i)]);
    for (int i : ord) { setRowOffsets(C, nv.data(), (IT)cut[i], (IT)cut[i + 1], rn.data(), T, i); std::vector<IT> ci(nv[i]); std::vector<NT> vi(nv[i]); for (int64_t k = 0; k < (int64_t)nv[i]; ++k) { ci[k] = (IT)want.col[want.ptr[cut[i]] + k]; vi[k] = (NT)want.val[want.ptr[cut[i]] + k]; } copyValuesToC(C, (IT)cut[i], ci.data(), vi.data(), nv[i]); }
    PBT_CHECK(kernimpl::sameAs(want, C), "assembling the result from %d pieces did not give the expected matrix", T); kernimpl::freeCSR(A); kernimpl::freeCSR(B); kernimpl::freeCSR(C); }

PBT_PROP(counts_int32_double, 3) { counts<int32_t, double, size_t>(t, ctx); }
PBT_PROP(counts_int64_int32, 2) { counts<int64_t, int32_t, int64_t>(t, ctx); }
PBT_PROP(counts_uint32_float, 2) { counts<uint32_t, float, uint32_t>(t, ctx); }
PBT_PROP(counts_int32_float, 1) { counts<int32_t, float, int32_t>(t, ctx); }
PBT_PROP(split_int32, 1) { splits<int32_t, int32_t>(t, ctx); }
PBT_PROP(split_int32_wide, 1) { splits<int32_t, size_t>(t, ctx); }
PBT_PROP(split_uint64, 1) { splits<uint64_t, uint64_t>(t, ctx); }
PBT_PROP(assemble_int32_double, 1) { assemble<int32_t, double>(t, ctx); }
PBT_PROP(assemble_uint64_float, 1) { assemble<uint64_t, float>(t, ctx); }
PBT_PROP(team_default, 1) { int T = 1 + t.draw(20); omp_set_dynamic(0); omp_set_num_threads(T); unsigned n = t.draw(9); unsigned m = n; setNumThreads(m); ctx.note(strf("setNumThreads(%u) with default %d", n, T)); ctx.nontrivial = n == 0 && T > 1; PBT_CHECK(m == (n ? n : (unsigned)T), "setNumThreads(%u) gave %u with %d default threads", n, m, T); }
// a heavy column meeting a heavy row: more products than an index can count, although both operands are small
PBT_PROP(count_outer_wide, 1) { int64_t n = 1 + t.draw(70000), m = 1 + t.draw(70000), k = 1 + t.draw(3), hot = t.draw(k); omp_set_num_threads(1 + t.draw(4)); HMat ac, b; ac.r = k; ac.c = n; b.r = k; b.c = m; ac.ptr.assign(1, 0); b.ptr.assign(1, 0);
    for (int64_t i = 0; i < k; ++i) { for (int64_t j = 0; j < (i == hot ? n : 0); ++j) { ac.col.push_back(j); ac.val.push_back(1); } for (int64_t j = 0; j < (i == hot ? m : 1); ++j) { b.col.push_back(j); b.val.push_back(1); } ac.ptr.push_back(ac.nnz()); b.ptr.push_back(b.nnz()); }
    CSC<int32_t, double> A; kernimpl::toCSC(ac, A, n); CSR<int32_t, double> B; kernimpl::toCSR(b, B); ctx.note(strf("column of %ld meets row of %ld", (long)n, (long)m)); ctx.nontrivial = n * m > INT32_MAX; total("get_flop(CSC,CSR)", get_flop(A, B), 2ll * n * m); A.make_empty(); kernimpl::freeCSR(B); }
// both operands small, but more products than a 32-bit index can count
PBT_PROP(count_heavy, 1) { int64_t k = 1 + t.draw(6), w = 100000 + t.draw(600000) / k, r = 1 + (t.draw(9000) * 1000000ll) / (k * w); int T = 1 + t.draw(16); RngSrc s(t.draw(0)); HMat a, b, m, at; a.r = m.r = r; a.c = b.r = k; b.c = m.c = w; omp_set_dynamic(0); omp_set_num_threads(T);
    for (int64_t i = 0; i < k; ++i) { for (int64_t j = s.draw(9); j < w; ++j) { b.col.push_back(j); b.val.push_back(1); } b.ptr.push_back(b.nnz()); }
    Counts c; for (int64_t i = 0; i < r; ++i) { int64_t n = 0; for (int64_t j = 0; j < k; ++j) if (s.draw(9)) { a.col.push_back(j); a.val.push_back(1); n += b.ptr[j + 1] - b.ptr[j]; } a.ptr.push_back(a.nnz()); bool on = s.draw(9); if (on) { m.col.push_back(s.draw(w)); m.val.push_back(1); } m.ptr.push_back(m.nnz()); c.row.push_back(n); c.mrow.push_back(on ? n : 0); c.tot += n; c.mtot += on ? n : 0; }
    ctx.note(strf("%ld rows of A, %ld products, %d threads", (long)r, (long)c.tot, T)); ctx.nontrivial = c.tot > INT32_MAX && T > 1; CSR<int32_t, float> A, B, M; kernimpl::toCSR(a, A); kernimpl::toCSR(b, B); kernimpl::toCSR(m, M); std::vector<size_t> per(r + 1, 77); per[r] = 91;
    total("calculateFlops(A,B)", calculateFlops(A, B, per.data(), T), c.tot); same("calculateFlops(A,B)", per, c.row); splitCheck<int32_t>("distributeWork", split<int32_t, size_t>(c.row, T, c.tot), c.row, r); total("calculateMultOps", calculateMultOps(A, B, T), c.tot);
    auto [sz, ra, rm, rf] = scanInputs<true, true, true, true, true>(0, (int32_t)r, per.data(), A, B, M); (void)ra; (void)rm; int64_t need = 0; for (auto x : c.row) need += std::min(x, w); PBT_CHECK((int64_t)sz == need && (int64_t)rf <= w, "scanInputs: %lld entries at most, largest row %lld; expected %lld", (long long)sz, (long long)rf, (long long)need);
    total("calculateFlops(A,B,M)", calculateFlops(A, B, M, per.data(), T), c.mtot); same("calculateFlops(A,B,M)", per, c.mrow); std::vector<int32_t> pi(r + 1, 77); pi[r] = 91; total("getFlop(heap)", tmp::getFlop(A, B, pi.data()), 2 * c.tot); same("getFlop(heap)", pi, c.row);
    BIN<int32_t, float> bin((int32_t)r, 8, T); bin.set_max_bin(A.rowptr, A.colids, B.rowptr, A.rows, B.cols); total("BIN total", bin.total_intprod, c.tot); std::vector<std::pair<int32_t, int32_t>> rg; for (int i = 0; i < T; ++i) rg.push_back({bin.rows_offset[i], bin.rows_offset[i + 1]}); splitCheck<int32_t>("BIN", rg, c.row, r);
    for (int i = 0; i < T; ++i) { bin.local_hash_table_id[i] = nullptr; bin.local_hash_table_val[i] = nullptr; } kernimpl::freeCSR(A); kernimpl::freeCSR(B); kernimpl::freeCSR(M); }
