// C15 (conversions), C16 (construction, copies, triples), C17 (row/column operations) of CSR and CSC against host-side models.
#include <numeric>
#include <cstring>
#include <cassert>
#include <tuple>
#include <array>
#include <malloc.h>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include "CSR.h"
#include "CSC.h"
#include "Triple.h"
#include "util/transpose.h"
#include "util/triple-util.h"
#include "kern.h"
#include "kern_impl.h"
#include "quiet.h"
using namespace gen; using namespace pbt;
#if ST_PROP == 15
namespace pbt { const char *g_rule = "one case = one generated matrix (tiny to large, rectangular, empty rows and columns, sorted or shuffled rows, explicit zeros), one index/value type pair and a team size; it is converted (CSC to CSR, reinterpreting transpose, counting transpose in both directions, "
    "one-based and back) and every result is compared, entry by entry and in the order the construction implies, with the host-side matrix; output arrays are exactly as long as documented. Non-trivial: at least two entries, and two rows and two columns hold entries; distinct by the list of generator draws"; }
#elif ST_PROP == 16
namespace pbt { const char *g_rule = "one case = one generated entry list (any order, duplicates, empty rows and columns) with shape and types, given to every constructor that accepts it (triples, tuples, parallel arrays, edge pairs, GTgraph edge lists with parallel edges), to MergeDuplicates, removeDuplicates and generateRandomTriples; "
    "or a history of 2-25 copies, assignments (also to self, over larger, smaller, empty and column-less content), clears, conversions and rebuilds over five matrices, each compared with its model after every step. Non-trivial: duplicates (construction) or at least three different operations (history); distinct by the list of generator draws"; }
#else
namespace pbt { const char *g_rule = "one case = one or two generated matrices (sorted or not, explicit zeros, values beyond the index type) and one operation: sortIds, shuffleIds, Sorted, Intersect, sumall, ==, intersect of lists, SpRef, SpRef1, SpRef2, or one of the small array helpers (my_is_sorted, iota, merge sort by key, power-of-two division); "
    "the outcome is compared with the host-side definition. Non-trivial: the operands have at least two entries and the operation's answer is neither empty nor everything; distinct by the list of generator draws"; }
#endif

// more than 2^16 entries in one row (wide) or column (tall)
static HMat longMat(Tape &t, ValSpec vs, bool wide, bool unsorted) { int64_t n = 65534 + t.draw(6000) + (t.chance(1, 4) ? 65536 : 0), k = t.range(1, 3); if (t.chance(1, 12)) n = (1 << 20) - 2 + t.draw(40000); RngSrc s(t.draw(0)); unsigned miss = t.draw(4) ? 0 : 1 + t.draw(20); int64_t more = t.chance(1, 2) ? 50 : 2; HMat m; m.r = n; m.c = k; m.ptr.reserve(n + 1);
    for (int64_t i = 0; i < n; ++i) { for (int64_t j = 0; j < k; ++j) if (j == 0 ? !miss || s.draw(1000) >= miss : !s.draw(more)) { m.col.push_back(j); m.val.push_back(genVal(s, vs)); } m.ptr.push_back(m.nnz()); } if (wide) m = transpose(m); if (unsorted && t.chance(1, 2)) shuffleRows(s, m); return m; }
// dimensions beyond 2^20 with few entries
static HMat farMat(Tape &t, ValSpec vs, bool unsorted) { int64_t far = (1 << 20) + t.draw(300000), r = t.draw(3) ? far : 1 + t.draw(40), c = t.draw(3) || r < 50 ? (1 << 20) + t.draw(300000) : 1 + t.draw(40); HMat m; m.r = r; m.c = c; RngSrc s(t.draw(0)); std::map<int64_t, std::set<int64_t>> q; std::vector<int64_t> rp, cp; auto some = [&](int64_t n) { return s.draw(3) ? n - 1 - (int64_t)s.draw(std::min<int64_t>(n, 50)) : (int64_t)s.draw(n); }; for (int i = 0; i < 6; ++i) { rp.push_back(some(r)); cp.push_back(some(c)); }
    for (int64_t e = t.draw(60); e > 0; --e) q[s.draw(2) ? rp[s.draw(6)] : some(r)].insert(s.draw(2) ? cp[s.draw(6)] : some(c)); m.ptr.assign(r + 1, 0); for (auto &x : q) { for (auto j : x.second) { m.col.push_back(j); m.val.push_back(genVal(s, vs)); } m.ptr[x.first + 1] = x.second.size(); } for (int64_t i = 0; i < r; ++i) m.ptr[i + 1] += m.ptr[i]; if (unsorted && t.chance(1, 2)) shuffleRows(s, m); return m; }
static HMat anyMat(Tape &t, bool unsorted = true, ValSpec vs = ValSpec()) { int64_t r, c, b = 300;
    switch (t.weighted({130, 130, 50, 26, 26, 3, 2, 1})) { case 0: r = t.range(1, 6); c = t.range(1, 6); break; case 1: r = t.range(1, 40); c = t.range(1, 40); break; case 2: r = genDim(t, 600); c = genDim(t, 600); b = 3000; break; case 3: r = t.range(1, 5000); c = t.range(1, 9); b = 9000; break; case 4: r = t.range(1, 9); c = t.range(1, 70000); b = 9000; break;
    case 5: return longMat(t, vs, false, unsorted); case 6: return longMat(t, vs, true, unsorted); default: return farMat(t, vs, unsorted); }
    return genMat(t, r, c, b, vs, unsorted); }
static bool spread(const HMat &m) { int rows = 0; std::set<int64_t> cs; for (int64_t i = 0; i < m.r; ++i) rows += m.ptr[i + 1] > m.ptr[i]; for (auto x : m.col) { cs.insert(x); if (cs.size() > 1) break; } return rows > 1 && cs.size() > 1; }
template<class IT, class NT> static bool sameCSC(const HMat &t /* transpose of the model */, const CSC<IT, NT> &m) {
    if (m.rows != (IT)t.c || m.cols != (IT)t.r || m.nnz != (IT)t.nnz()) return false; for (int64_t i = 0; i <= t.r; ++i) if (m.colptr[i] != (IT)t.ptr[i]) return false;
    for (int64_t k = 0; k < t.nnz(); ++k) { NT v = (NT)t.val[k]; if (m.rowids[k] != (IT)t.col[k] || memcmp(&m.values[k], &v, sizeof v)) return false; } return true; }
template<class IT, class NT> static std::string show(const CSC<IT, NT> &m) { std::string s = strf("%lldx%lld nnz=%lld ptr:", (long long)m.rows, (long long)m.cols, (long long)m.nnz); for (IT i = 0; i <= m.cols && i < 12; ++i) s += strf(" %lld", (long long)m.colptr[i]); s += " ids:"; for (IT i = 0; i < m.nnz && i < 24; ++i) s += strf(" %lld=%s", (long long)m.rowids[i], kernimpl::vstr(m.values[i]).c_str()); return s; }
template<class IT, class NT> static std::string show(const CSR<IT, NT> &m) { std::string s = strf("%lldx%lld nnz=%lld ptr:", (long long)m.rows, (long long)m.cols, (long long)m.nnz); for (IT i = 0; i <= m.rows && i < 12; ++i) s += strf(" %lld", (long long)m.rowptr[i]); s += " ids:"; for (IT i = 0; i < m.nnz && i < 24; ++i) s += strf(" %lld=%s", (long long)m.colids[i], kernimpl::vstr(m.values[i]).c_str()); return s; }
// an array of exactly n elements with guards
template<class T> struct Arr { std::vector<T> v; size_t n; Arr(size_t n) : v(n + 2, (T)111), n(n) {} T *p() { return v.data() + 1; } void guards(const char *w) { PBT_CHECK(v[0] == (T)111 && v[n + 1] == (T)111, "%s wrote outside its output array of %zu elements", w, n); } };
static void team(Tape &t) { omp_set_dynamic(0); omp_set_num_threads(t.chance(1, 3) ? 1 : 2 + t.draw(8)); }

#if ST_PROP == 15
template<class IT, class NT> static void counting(const char *w, const HMat &src, bool srcIsRows, int64_t m, int64_t n) {   // src compressed along m
    (void)srcIsRows; std::vector<IT> rp(src.ptr.begin(), src.ptr.end()), ci(src.col.begin(), src.col.end()); std::vector<NT> va; for (auto x : src.val) va.push_back((NT)x); auto rp0 = rp, ci0 = ci; auto va0 = va;
    IT *xrp = (IT *)malloc((m + 1) * sizeof(IT)); memcpy(xrp, rp.data(), (m + 1) * sizeof(IT)); Arr<IT> cp(n + 1), ri(src.nnz()); Arr<NT> cv(src.nnz());
    csr2csc_atomic_nosort<IT, NT>((IT)m, (IT)n, (IT)src.nnz(), xrp, ci.data(), va.data(), cp.p(), ri.p(), cv.p()); cp.guards(w); ri.guards(w); cv.guards(w);
    PBT_CHECK(!memcmp(xrp, rp0.data(), (m + 1) * sizeof(IT)) && ci == ci0 && va == va0, "%s changed its input", w); free(xrp);
    HMat want = transpose(src); for (int64_t j = 0; j <= n; ++j) PBT_CHECK((int64_t)cp.p()[j] == want.ptr[j], "%s: offset %ld is %lld, expected %ld", w, (long)j, (long long)cp.p()[j], (long)want.ptr[j]);
    for (int64_t j = 0; j < n; ++j) { std::vector<std::pair<int64_t, NT>> a, b; for (int64_t k = want.ptr[j]; k < want.ptr[j + 1]; ++k) { a.push_back({(int64_t)ri.p()[k], cv.p()[k]}); b.push_back({want.col[k], (NT)want.val[k]}); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        PBT_CHECK(a == b, "%s: line %ld holds %s, expected other entries", w, (long)j, a.empty() ? "nothing" : strf("%ld=%s...", (long)a[0].first, kernimpl::vstr(a[0].second).c_str()).c_str()); } }
template<class IT, class NT> static void conversions(Tape &t, Ctx &ctx) {
    HMat m = anyMat(t, true); HMat mt = transpose(m); bool shuffled = t.chance(1, 2); if (shuffled) shuffleRows(t, mt); team(t); ctx.note(m.str(300) + (shuffled ? " (columns shuffled)" : "")); ctx.nontrivial = m.nnz() > 1 && spread(m); ctx.label(m.nnz() ? m.r == m.c ? "square" : "rectangular" : "empty");
    HMat rows = transpose(mt);      // rows in ascending column order: what the counting construction must give
    CSC<IT, NT> c; kernimpl::toCSC(mt, c, m.r); c.nnz = (IT)mt.nnz();
    { CSR<IT, NT> r(c); PBT_CHECK(kernimpl::sameAs(rows, r) && r.zerobased, "CSC to CSR gives %s", show(r).c_str()); }
    { CSR<IT, NT> r(c, false); PBT_CHECK(kernimpl::sameAs(rows, r) && r.zerobased, "CSC to CSR (transpose=false) gives %s", show(r).c_str()); }
    { CSR<IT, NT> r(c, true); PBT_CHECK(kernimpl::sameAs(mt, r) && r.zerobased, "transposing CSC to CSR gives %s", show(r).c_str());
      // transposing twice: read the transposed rows as columns again
      CSC<IT, NT> c2; HMat rt = mt; kernimpl::toCSC(rt, c2, m.r); CSR<IT, NT> back(c2); PBT_CHECK(kernimpl::sameAs(rows, back), "transposing twice gives %s", show(back).c_str()); c2.make_empty(); }
    PBT_CHECK(sameCSC(mt, c), "a conversion changed its source: %s", show(c).c_str()); c.make_empty();
    counting<IT, NT>("csr2csc_atomic_nosort", m, true, m.r, m.c); counting<IT, NT>("csr2csc_atomic_nosort (columns to rows)", mt, false, m.c, m.r);
    CSR<IT, NT> z; kernimpl::toCSR(m, z); bool was = z.ConvertZeroBased(); PBT_CHECK(was && kernimpl::sameAs(m, z) && z.zerobased, "ConvertZeroBased changed a zero-based matrix");
    PBT_CHECK(z.ConvertOneBased() && !z.zerobased, "ConvertOneBased did not report a conversion"); PBT_CHECK((int64_t)z.rows == m.r && (int64_t)z.cols == m.c && (int64_t)z.nnz == m.nnz(), "ConvertOneBased changed the shape");
    for (int64_t i = 0; i <= m.r; ++i) PBT_CHECK((int64_t)z.rowptr[i] == m.ptr[i] + 1, "one-based offset %ld is %lld, expected %ld", (long)i, (long long)z.rowptr[i], (long)m.ptr[i] + 1);
    for (int64_t k = 0; k < m.nnz(); ++k) PBT_CHECK((int64_t)z.colids[k] == m.col[k] + 1 && z.values[k] == (NT)m.val[k], "one-based entry %ld is wrong", (long)k);
    PBT_CHECK(!z.ConvertOneBased() && (int64_t)z.rowptr[0] == 1, "a second ConvertOneBased changed the matrix"); bool had = z.ConvertZeroBased(); PBT_CHECK(!had && z.zerobased && kernimpl::sameAs(m, z), "one-based and back gives %s", show(z).c_str()); }
PBT_PROP(convert_int32_double, 1) { conversions<int32_t, double>(t, ctx); }
PBT_PROP(convert_int64_int32, 1) { conversions<int64_t, int32_t>(t, ctx); }
PBT_PROP(convert_uint32_float, 1) { conversions<uint32_t, float>(t, ctx); }
PBT_PROP(convert_uint64_uint64, 1) { conversions<uint64_t, uint64_t>(t, ctx); }

#elif ST_PROP == 16
struct Ent { int64_t r, c, v; };
struct List { int64_t m, n; std::vector<Ent> e; bool dups; std::string str() const { std::string s = strf("%ldx%ld ", (long)m, (long)n); for (size_t i = 0; i < e.size() && i < 30; ++i) s += strf("(%ld,%ld)=%ld ", (long)e[i].r, (long)e[i].c, (long)e[i].v); return s + strf("[%zu entries]", e.size()); } };
static List genList(Tape &t, bool dups, bool square = false, int64_t lo = -8) { List l; l.m = t.chance(1, 4) ? genDim(t, 2000) : t.range(1, 12); l.n = square ? l.m : t.chance(1, 4) ? genDim(t, 2000) : t.range(1, 12); size_t n = t.chance(1, 5) ? t.draw(3000) : t.draw(40); bool long_ = t.chance(1, 120); if (long_) { n = t.draw(3) ? 60000 + t.draw(60000) : 3000 + t.draw(30000); if (t.draw(3)) l.m = 65530 + t.draw(60000); if (square) l.n = l.m; else if (t.draw(3)) l.n = 65530 + t.draw(60000); } bool big = n > 60; RngSrc rs(big ? t.draw(0) : 0); Src &s = big ? (Src &)rs : t;
    int style = t.draw(4); std::set<std::pair<int64_t, int64_t>> seen; l.dups = false;
    for (size_t i = 0; i < n; ++i) { Ent e; if (i && dups && s.chance(1, 4)) { e = l.e[s.draw(l.e.size())]; if (s.chance(1, 2)) e.v = s.range(lo, 8); } else { e.r = style == 1 ? s.draw(std::min<int64_t>(l.m, 3)) : style == 3 ? l.m - 1 : s.draw(l.m); e.c = style == 2 ? s.draw(std::min<int64_t>(l.n, 3)) : s.draw(l.n); e.v = genVal(s, ValSpec{lo, 8}); }
        bool nw = seen.insert({e.r, e.c}).second; if (!nw) { if (!dups) continue; l.dups = true; } l.e.push_back(e); }
    if (t.chance(1, 4)) std::sort(l.e.begin(), l.e.end(), [](const Ent &a, const Ent &b) { return std::tie(a.r, a.c) < std::tie(b.r, b.c); }); return l; }
// column-compressed model: entries of a column ascending by row, equal rows ascending by value
template<class NT> static void checkCSCList(const char *w, const List &l, int64_t rows, int64_t cols, int64_t nnz, const auto *ptr, const auto *ids, const NT *vals, bool byCol) {
    std::vector<std::vector<std::pair<int64_t, NT>>> want(byCol ? l.n : l.m); for (auto &e : l.e) (byCol ? want[e.c] : want[e.r]).push_back({byCol ? e.r : e.c, (NT)e.v});
    PBT_CHECK(rows == l.m && cols == l.n && nnz == (int64_t)l.e.size(), "%s: %ld x %ld with %ld entries, given %ld x %ld with %zu", w, (long)rows, (long)cols, (long)nnz, (long)l.m, (long)l.n, l.e.size()); PBT_CHECK(ptr[0] == 0, "%s: offsets start at %lld", w, (long long)ptr[0]);
    for (size_t j = 0; j < want.size(); ++j) { auto &x = want[j]; std::sort(x.begin(), x.end()); int64_t b = ptr[j], e = ptr[j + 1]; PBT_CHECK(e - b == (int64_t)x.size(), "%s: line %zu holds %ld entries, given %zu", w, j, (long)(e - b), x.size()); std::vector<std::pair<int64_t, NT>> got;
        for (int64_t k = b; k < e; ++k) got.push_back({(int64_t)ids[k], vals[k]}); for (size_t k = 1; k < got.size(); ++k) PBT_CHECK(got[k - 1].first <= got[k].first, "%s: line %zu is out of order", w, j); std::sort(got.begin(), got.end()); PBT_CHECK(got == x, "%s: line %zu does not hold the given entries", w, j); } }
template<class NT> static void checkC(const char *w, const List &l, const auto &c) { checkCSCList<NT>(w, l, c.rows, c.cols, c.nnz, c.colptr, c.rowids, c.values, true); }
static List mergeList(const List &l, int op) { std::map<std::pair<int64_t, int64_t>, int64_t> m; List o; o.m = l.m; o.n = l.n; for (auto &e : l.e) { auto k = std::make_pair(e.r, e.c); auto it = m.find(k); if (it == m.end()) m[k] = e.v; else it->second = op == 0 ? it->second + e.v : op == 1 ? std::min(it->second, e.v) : std::max(it->second, e.v); } for (auto &x : m) o.e.push_back({x.first.first, x.first.second, x.second}); return o; }
template<class IT, class NT> static void construct(Tape &t, Ctx &ctx) {
    team(t); int64_t lo = std::is_unsigned<NT>::value ? 0 : -8; List l = genList(t, t.chance(2, 3), false, lo); ctx.note(l.str()); ctx.nontrivial = l.dups && l.e.size() > 2; ctx.label(l.dups ? "duplicates" : "distinct"); if (l.e.empty()) ctx.label("empty-list"); size_t n = l.e.size();
    std::vector<Triple<IT, NT>> tr; std::vector<std::tuple<IT, IT, NT>> tu; std::vector<IT> ri, ci; std::vector<NT> va; std::vector<std::pair<int64_t, int64_t>> ed; List ones = l; for (auto &e : l.e) { tr.push_back(Triple<IT, NT>((IT)e.r, (IT)e.c, (NT)e.v)); tu.push_back({(IT)e.r, (IT)e.c, (NT)e.v}); ri.push_back(e.r); ci.push_back(e.c); va.push_back((NT)e.v); ed.push_back({e.r, e.c}); } for (auto &e : ones.e) e.v = 1;
    int op = t.draw(3); List merged = mergeList(l, op); auto merge = [&](CSC<IT, NT> &c) { Quiet q; if (op == 0) c.MergeDuplicates(std::plus<NT>()); else if (op == 1) c.MergeDuplicates([](NT a, NT b) { return std::min(a, b); }); else c.MergeDuplicates([](NT a, NT b) { return std::max(a, b); }); };
    { CSC<IT, NT> c(tr.data(), (IT)n, (IT)l.m, (IT)l.n); checkC<NT>("CSC(triples)", l, c); for (size_t k = 0; k < n; ++k) PBT_CHECK(tr[k].row == ri[k] && tr[k].col == ci[k] && tr[k].val == va[k], "CSC(triples) changed its input"); merge(c); checkC<NT>("MergeDuplicates", merged, c); }
    { CSC<IT, NT> c(tu, (IT)l.m, (IT)l.n, std::plus<NT>()); if (!l.dups) checkC<NT>("CSC(tuples)", l, c); merge(c); if (op == 0 || !l.dups) checkC<NT>("CSC(tuples), merged", merged, c); }
    if (n) { CSC<IT, NT> c(ri.data(), ci.data(), va.data(), (IT)n, (IT)l.m, (IT)l.n); checkC<NT>("CSC(arrays)", l, c); CSR<IT, NT> r(c); checkCSCList<NT>("CSR(CSC(arrays))", l, r.rows, r.cols, r.nnz, r.rowptr, r.colids, r.values, false); }
    { Quiet q; CSC<IT, NT> c(ed, (IT)n, (IT)l.m, (IT)l.n); checkC<NT>("CSC(edges)", ones, c); }
    { auto x = tr; x.push_back(Triple<IT, NT>((IT)7, (IT)9, (NT)5)); IT k = removeDuplicates<IT, NT>((IT)n, x.data()); List u = mergeList(l, 0); PBT_CHECK((size_t)k == u.e.size(), "removeDuplicates keeps %lld of %zu entries, %zu are distinct", (long long)k, n, u.e.size()); PBT_CHECK(x[n].row == (IT)7 && x[n].col == (IT)9 && x[n].val == (NT)5, "removeDuplicates wrote past the list");
      std::set<std::tuple<int64_t, int64_t, NT>> given; for (auto &e : l.e) given.insert({e.r, e.c, (NT)e.v}); for (size_t i = 0; i < (size_t)k; ++i) PBT_CHECK((int64_t)x[i].row == u.e[i].r && (int64_t)x[i].col == u.e[i].c && given.count({u.e[i].r, u.e[i].c, x[i].val}), "removeDuplicates: entry %zu is (%lld,%lld), expected (%ld,%ld) with one of its values", i, (long long)x[i].row, (long long)x[i].col, (long)u.e[i].r, (long)u.e[i].c); }
    { IT R = (IT)l.m, C = (IT)l.n; Triple<IT, NT> *p = nullptr; IT k = generateRandomTriples<IT, NT>(R, C, (IT)n, p); PBT_CHECK((size_t)k <= n && (n == 0 || k > 0) , "generateRandomTriples(%zu) returned %lld", n, (long long)k); for (IT i = 0; i < k; ++i) { PBT_CHECK(p[i].row >= 0 && p[i].row < R && p[i].col >= 0 && p[i].col < C && p[i].val == (NT)1, "generateRandomTriples: entry %lld outside the matrix or not 1", (long long)i); if (i) PBT_CHECK(p[i - 1].row < p[i].row || (p[i - 1].row == p[i].row && p[i - 1].col < p[i].col), "generateRandomTriples: entries %lld and before out of order or repeated", (long long)i); } delete[] p; } }
template<class IT, class NT> static void fromGraph(Tape &t, Ctx &ctx) {
    team(t); List l = genList(t, t.chance(3, 4), true, 1); if (l.e.empty()) l.e.push_back({0, 0, 1}); std::stable_sort(l.e.begin(), l.e.end(), [](const Ent &a, const Ent &b) { return a.r < b.r; }); List m = mergeList(l, 0); ctx.note("graph " + l.str()); ctx.nontrivial = l.dups && l.e.size() > 2; ctx.label("graph");
    graph G; memset(&G, 0, sizeof G); G.m = l.e.size(); G.n = l.m; std::vector<std::decay_t<decltype(*G.start)>> s, d; std::vector<std::decay_t<decltype(*G.w)>> w; for (auto &e : l.e) { s.push_back(e.r); d.push_back(e.c); w.push_back(e.v); } G.start = s.data(); G.end = d.data(); G.w = w.data();
    Quiet q; { CSC<IT, NT> c(G); checkC<NT>("CSC(graph)", m, c); } { CSR<IT, NT> r(G); checkCSCList<NT>("CSR(graph)", m, r.rows, r.cols, r.nnz, r.rowptr, r.colids, r.values, false); }
    for (size_t i = 0; i < l.e.size(); ++i) PBT_CHECK((int64_t)s[i] == l.e[i].r && (int64_t)d[i] == l.e[i].c && (int64_t)w[i] == l.e[i].v, "building from a graph changed the graph"); }
// histories
template<class IT, class NT> static void histories(Tape &t, Ctx &ctx) {
    const int N = 5; CSR<IT, NT> *r[N]; CSC<IT, NT> *c[N]; HMat mr[N], mc[N]; bool one[N]; for (int i = 0; i < N; ++i) { r[i] = new CSR<IT, NT>; c[i] = new CSC<IT, NT>; mr[i].r = mr[i].c = mc[i].r = mc[i].c = 0; one[i] = false; } std::set<int> kinds; int ops = 2 + t.draw(24); std::string log;
    auto small = [&](Tape &t) { HMat m; m.r = t.range(1, 6); m.c = t.chance(1, 8) ? 0 : t.range(1, 6); if (m.c == 0) { m.ptr.assign(m.r + 1, 0); return m; } return genMat(t, m.r, m.c, 40, ValSpec(), true); };
    for (int o = 0; o < ops; ++o) { int k = t.draw(10), i = t.draw(N), j = t.draw(N); kinds.insert(k); log += strf("%d:%d,%d ", k, i, j);
        switch (k) {
        case 0: *r[i] = *r[j]; mr[i] = mr[j]; one[i] = one[j]; break; 
        case 1: *c[i] = *c[j]; mc[i] = mc[j]; break;
        case 2: { auto *x = new CSR<IT, NT>(*r[j]); if (i == j) { delete r[i]; r[i] = x; } else { delete r[i]; r[i] = x; } mr[i] = mr[j]; one[i] = one[j]; break; }
        case 3: { auto *x = new CSC<IT, NT>(*c[j]); delete c[i]; c[i] = x; mc[i] = mc[j]; break; }
        case 4: r[i]->make_empty(); mr[i] = HMat(); one[i] = false; if (t.chance(1, 3)) r[i]->make_empty(); break;
        case 5: c[i]->make_empty(); mc[i] = HMat(); if (t.chance(1, 3)) c[i]->make_empty(); break;
        case 6: case 7: { HMat h = small(t); kernimpl::toCSR(h, *r[i]); mr[i] = h; one[i] = false; break; }
        case 8: { HMat h = small(t); if (h.c == 0) break; HMat ht = transpose(h); c[i]->make_empty(); kernimpl::toCSC(ht, *c[i], h.r); mc[i] = ht; break; }
        case 9: if (mr[i].r) { if (t.chance(1, 2)) { r[i]->ConvertOneBased(); one[i] = true; } else { r[i]->ConvertZeroBased(); one[i] = false; } } break; }
        for (int q = 0; q < N; ++q) { HMat e = mr[q]; if (one[q]) { for (auto &x : e.ptr) ++x; for (auto &x : e.col) ++x; } if (mr[q].r == 0) PBT_CHECK(r[q]->rows == 0 && r[q]->cols == 0 && r[q]->nnz == 0 && r[q]->isEmpty(), "after operations %s: CSR %d should be empty", log.c_str(), q); else { bool same = (int64_t)r[q]->rows == e.r && (int64_t)r[q]->cols == e.c && (int64_t)r[q]->nnz == (int64_t)e.col.size() && r[q]->isEmpty() == e.col.empty(); for (int64_t x = 0; same && x <= e.r; ++x) same = (int64_t)r[q]->rowptr[x] == e.ptr[x]; for (size_t x = 0; same && x < e.col.size(); ++x) same = (int64_t)r[q]->colids[x] == e.col[x] && r[q]->values[x] == (NT)e.val[x]; PBT_CHECK(same, "after operations %s: CSR %d is %s", log.c_str(), q, show(*r[q]).c_str()); }
            PBT_CHECK(r[q]->zerobased == !one[q], "after operations %s: CSR %d is flagged %s-based", log.c_str(), q, one[q] ? "zero" : "one");
            if (mc[q].r == 0) PBT_CHECK(c[q]->rows == 0 && c[q]->cols == 0 && c[q]->nnz == 0 && c[q]->isEmpty(), "after operations %s: CSC %d should be empty", log.c_str(), q); else PBT_CHECK(sameCSC(mc[q], *c[q]) && c[q]->isEmpty() == mc[q].col.empty(), "after operations %s: CSC %d is %s", log.c_str(), q, show(*c[q]).c_str()); } }
    ctx.note("history " + log); ctx.nontrivial = kinds.size() >= 3; ctx.label("history"); for (int i = 0; i < N; ++i) { delete r[i]; delete c[i]; } }
PBT_PROP(construct_int32_double, 3) { construct<int32_t, double>(t, ctx); }
PBT_PROP(construct_int64_int32, 2) { construct<int64_t, int32_t>(t, ctx); }
PBT_PROP(construct_uint32_uint64, 2) { construct<uint32_t, uint64_t>(t, ctx); }
PBT_PROP(graph_int32_double, 1) { fromGraph<int32_t, double>(t, ctx); }
PBT_PROP(graph_int64_int32, 1) { fromGraph<int64_t, int32_t>(t, ctx); }
PBT_PROP(history_int32_double, 2) { histories<int32_t, double>(t, ctx); }
PBT_PROP(history_uint64_float, 2) { histories<uint64_t, float>(t, ctx); }

#else
template<class IT, class NT> static void ops(Tape &t, Ctx &ctx) {
    team(t); ValSpec vs; if (t.chance(1, 4)) { vs.lo = -100000; vs.hi = 100000; } if (std::is_unsigned<NT>::value) vs.lo = 0; 
    // every value v stands for v (integers) or v/8 + v (floating): sums stay exact
    auto conv = [](int64_t v) -> NT { if constexpr (std::is_floating_point<NT>::value) return (NT)(v * 0.125); else return (NT)v; };
    auto put = [&](const HMat &h, CSR<IT, NT> &m) { kernimpl::toCSR(h, m); for (int64_t k = 0; k < h.nnz(); ++k) m.values[k] = conv(h.val[k]); };
    auto putC = [&](const HMat &ht, CSC<IT, NT> &m, int64_t rows) { m.make_empty(); kernimpl::toCSC(ht, m, rows); for (int64_t k = 0; k < ht.nnz(); ++k) m.values[k] = conv(ht.val[k]); };
    int op = t.draw(9); HMat h = anyMat(t, op != 4 && op != 6 && op != 7, vs); ctx.nontrivial = h.nnz() > 1; static const char *names[] = {"sortIds", "shuffleIds", "sumall", "Sorted", "Intersect", "operator==", "SpRef", "intersect", "helpers"}; ctx.label(names[op]); ctx.note(std::string(names[op]) + " " + h.str(300));
    auto rowsOf = [&](const HMat &x) { std::vector<std::vector<std::pair<int64_t, NT>>> v(x.r); for (int64_t i = 0; i < x.r; ++i) { for (int64_t k = x.ptr[i]; k < x.ptr[i + 1]; ++k) v[i].push_back({x.col[k], conv(x.val[k])}); } return v; };
    auto checkLines = [&](const char *w, const HMat &x, const IT *ptr, const IT *ids, const NT *vals, bool sorted) { auto want = rowsOf(x); for (int64_t i = 0; i <= x.r; ++i) PBT_CHECK((int64_t)ptr[i] == x.ptr[i], "%s changed the offsets", w); for (int64_t i = 0; i < x.r; ++i) { std::vector<std::pair<int64_t, NT>> got; for (int64_t k = x.ptr[i]; k < x.ptr[i + 1]; ++k) got.push_back({(int64_t)ids[k], vals[k]}); if (!sorted) std::sort(got.begin(), got.end()); std::sort(want[i].begin(), want[i].end()); PBT_CHECK(got == want[i], "%s: line %ld does not hold its (index, value) pairs%s", w, (long)i, sorted ? " in order" : ""); } };
    switch (op) {
    case 0: { CSR<IT, NT> m; put(h, m); m.sortIds(); checkLines("sortIds", h, m.rowptr, m.colids, m.values, true); ctx.nontrivial &= !h.sortedRows(); break; }
    case 1: { CSR<IT, NT> m; put(h, m); m.shuffleIds(); checkLines("CSR shuffleIds", h, m.rowptr, m.colids, m.values, false); HMat ht = transpose(h); CSC<IT, NT> c; putC(ht, c, h.r); c.shuffleIds(); checkLines("CSC shuffleIds", ht, c.colptr, c.rowids, c.values, false); break; }
    case 2: { CSR<IT, NT> m; put(h, m); int64_t s = 0; double abs = 0; for (auto v : h.val) s += v, abs += std::abs((double)v); NT want = conv(s), got = m.sumall(); bool exact = !std::is_floating_point<NT>::value || abs < (sizeof(NT) == 4 ? 16e6 : 9e15);   // every partial sum is representable
        PBT_CHECK(exact ? got == want : std::fabs((double)got - (double)want) <= (double)conv((int64_t)abs) * h.nnz() * 1.2e-7,  "sumall gives %s, the sum is %s", kernimpl::vstr(got).c_str(), kernimpl::vstr(want).c_str()); break; }
    case 3: { CSR<IT, NT> m; put(h, m); std::string a, b; { Quiet q; m.Sorted(); a = q.out.str(); } HMat ht = transpose(h); bool sh = t.chance(1, 2); if (sh) shuffleRows(t, ht); CSC<IT, NT> c; putC(ht, c, h.r); { Quiet q; c.Sorted(); b = q.out.str(); }
        auto ans = [](const std::string &s) { size_t k = s.find_last_of("01"); return k == std::string::npos ? -1 : s[k] - '0'; }; PBT_CHECK(ans(a) == (int)h.sortedRows(), "CSR Sorted reports %s for %s rows", a.c_str(), h.sortedRows() ? "sorted" : "unsorted"); PBT_CHECK(ans(b) == (int)ht.sortedRows(), "CSC Sorted reports %s for %s columns", b.c_str(), ht.sortedRows() ? "sorted" : "unsorted"); break; }
    case 4: { HMat g; int how = t.draw(4); if (how == 0) g = h; else if (how == 1) { g = genMat(t, h.r, h.c, 3000, vs, false); } else { RngSrc rs(t.draw(0)); std::vector<std::vector<int64_t>> q(h.r); for (int64_t i = 0; i < h.r; ++i) { std::set<int64_t> z; for (int64_t k = h.ptr[i]; k < h.ptr[i + 1]; ++k) if (rs.chance(1, 2)) z.insert(h.col[k]); for (int64_t e = rs.draw(3); e > 0; --e) z.insert(rs.draw(h.c)); q[i].assign(z.begin(), z.end()); } g = fromPattern(rs, h.r, h.c, q, vs); }
        CSR<IT, NT> a, b; put(h, a); put(g, b); CSR<IT, NT> r = Intersect(a, b, [](NT x, NT y) { return (NT)(x + x + x + y); }); std::vector<IT> wp{0}, wc; std::vector<NT> wv; for (int64_t i = 0; i < h.r; ++i) { std::map<int64_t, int64_t> mm; for (int64_t k = g.ptr[i]; k < g.ptr[i + 1]; ++k) mm[g.col[k]] = g.val[k]; for (int64_t k = h.ptr[i]; k < h.ptr[i + 1]; ++k) { auto it = mm.find(h.col[k]); if (it != mm.end()) { wc.push_back(h.col[k]); NT x = conv(h.val[k]), y = conv(it->second); wv.push_back((NT)(x + x + x + y)); } } wp.push_back(wc.size()); }
        PBT_CHECK((int64_t)r.rows == h.r && (int64_t)r.cols == h.c && (size_t)r.nnz == wc.size() && r.zerobased, "Intersect: %s, expected %zu entries", show(r).c_str(), wc.size()); for (int64_t i = 0; i <= h.r; ++i) PBT_CHECK(r.rowptr[i] == wp[i], "Intersect: offset %ld is %lld, expected %lld", (long)i, (long long)r.rowptr[i], (long long)wp[i]); for (size_t k = 0; k < wc.size(); ++k) PBT_CHECK(r.colids[k] == wc[k] && r.values[k] == wv[k], "Intersect: entry %zu is %lld=%s, expected %lld=%s", k, (long long)r.colids[k], kernimpl::vstr(r.values[k]).c_str(), (long long)wc[k], kernimpl::vstr(wv[k]).c_str());
        checkLines("Intersect (operand)", h, a.rowptr, a.colids, a.values, true); checkLines("Intersect (operand)", g, b.rowptr, b.colids, b.values, true); ctx.nontrivial = !wc.empty() && (int64_t)wc.size() < std::min(h.nnz(), g.nnz());
        if (t.chance(1, 6)) { HMat o; o.r = h.r + 1; o.c = h.c; o.ptr.assign(o.r + 1, 0); CSR<IT, NT> d; put(o, d); Quiet q; auto e = Intersect(a, d, std::plus<NT>()); PBT_CHECK(e.nnz == 0 && e.rows == 0, "Intersect of matrices of different shape returned entries"); } break; }
    case 5: if constexpr (std::is_signed<NT>::value && std::is_signed<IT>::value) { CSR<IT, NT> a, b; put(h, a); put(h, b); int ch = t.draw(7); bool same = true; size_t k = h.nnz() ? t.draw(h.nnz()) : 0; bool pa = t.chance(1, 4), pb = t.chance(1, 4);
        HMat g = h; if (ch == 1 && h.nnz()) { b.values[k] += (NT)(2 + std::abs((double)b.values[k])); same = false; } else if (ch == 2 && h.nnz() && h.c > 1) { b.colids[k] = (IT)((g.col[k] + 1) % h.c); same = false; } else if (ch == 3 && h.r > 1) { bool did = false; for (int64_t i = 1; i < h.r && !did; ++i) if (h.ptr[i] < h.ptr[i + 1]) { b.rowptr[i]++; did = true; } same = !did; } else if (ch == 4) { b.cols++; same = false; } else if (ch == 5) { HMat o = h; o.r++; o.ptr.push_back(o.ptr.back()); put(o, b); same = false; } else if (ch == 6 && h.nnz()) { HMat o = h; o.col.pop_back(); o.val.pop_back(); for (auto &x : o.ptr) x = std::min<int64_t>(x, o.nnz()); put(o, b); same = false; }
        if (pa) a.ConvertOneBased(); if (pb) b.ConvertOneBased(); Quiet q; bool r1 = a == b, r2 = b == a; PBT_CHECK(r1 == same && r2 == same, "CSR == gives %d and %d for matrices that are %s (change %d, one-based %d %d)", r1, r2, same ? "equal" : "different", ch, pa, pb);
        if (pa) a.ConvertZeroBased(); checkLines("CSR == (operand)", h, a.rowptr, a.colids, a.values, false); HMat ht = transpose(h); CSC<IT, NT> c, d; putC(ht, c, h.r); putC(ht, d, h.r); bool cs = true; if (ch == 1 && h.nnz()) { d.values[k] += (NT)(2 + std::abs((double)d.values[k])); cs = false; } else if (ch == 2 && h.nnz() && h.r > 1) { d.rowids[k] = (IT)((ht.col[k] + 1) % h.r); cs = false; } else if (ch == 4) { d.rows++; cs = false; } else if (ch == 5) { HMat o = ht; o.r++; o.ptr.push_back(o.ptr.back()); putC(o, d, h.r); cs = false; } PBT_CHECK((c == d) == cs && (d == c) == cs, "CSC == is wrong for %s matrices (change %d)", cs ? "equal" : "different", ch); ctx.nontrivial &= true; }
        else throw Discard{"== needs a signed type"}; break;
    case 6: { HMat ht = transpose(h); CSC<IT, NT> c; putC(ht, c, h.r); auto pickIds = [&](int64_t n, bool rep, bool mayEmpty) { std::vector<IT> v; int st = t.draw(4); if (st == 0) for (int64_t i = 0; i < n; ++i) v.push_back(i); else { int64_t q = std::min<int64_t>(n, 1 + t.draw(24)); for (int64_t i = 0; i < q; ++i) v.push_back(t.draw(n)); if (t.chance(1, 2)) v.push_back(n - 1); } std::sort(v.begin(), v.end()); if (!rep) v.erase(std::unique(v.begin(), v.end()), v.end()); if (mayEmpty && t.chance(1, 10)) v.clear(); return v; };
        bool rep = t.chance(1, 3); auto ri = pickIds(h.r, rep, true), ci = pickIds(h.c, rep, false); bool repR = std::adjacent_find(ri.begin(), ri.end()) != ri.end();
#ifndef __SANITIZE_THREAD__
        if (t.chance(1, 80)) {     // a selection that reaches beyond the matrix ends the program, it does not read on
            bool row = t.chance(1, 2); auto rx = ri, cx = ci; (row ? rx : cx).push_back((IT)((row ? h.r : h.c) + t.draw(3))); int which = t.draw(std::is_same<IT, NT>::value ? 3 : 2); ctx.label("SpRef out of bounds"); fflush(nullptr); pid_t p = fork(); if (p < 0) throw Discard{"cannot fork"};
            if (!p) { signal(SIGABRT, SIG_DFL); int n = open("/dev/null", O_WRONLY); dup2(n, 2); if (which == 0) { c.SpRef(rx, cx); } else if (which == 1) { c.SpRef1(rx, cx); } else { if constexpr (std::is_same<IT, NT>::value) c.SpRef2(rx.data(), (IT)rx.size(), cx.data(), (IT)cx.size()); } _exit(0); }
            int st; while (waitpid(p, &st, 0) < 0) {} PBT_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "SpRef%s of a %s beyond the matrix ended with status %x instead of aborting", which ? which == 1 ? "1" : "2" : "", row ? "row" : "column", st); }
#endif
        // expected: result[a][b] = m[ri[a]][ci[b]]
        HMat want; want.r = ci.size(); want.c = ri.size(); want.ptr.assign(1, 0); for (IT j : ci) { std::map<int64_t, int64_t> col; for (int64_t k = ht.ptr[j]; k < ht.ptr[j + 1]; ++k) col[ht.col[k]] = ht.val[k]; for (size_t a = 0; a < ri.size(); ++a) { auto it = col.find(ri[a]); if (it != col.end()) { want.col.push_back(a); want.val.push_back(it->second); } } want.ptr.push_back(want.nnz()); }
        ctx.nontrivial = want.nnz() > 0 && want.nnz() < h.nnz(); auto cmp = [&](const char *w, const CSC<IT, NT> &g) { PBT_CHECK((int64_t)g.rows == want.c && (int64_t)g.cols == want.r && (int64_t)g.nnz == want.nnz(), "%s: %s, expected %ldx%ld with %ld entries", w, show(g).c_str(), (long)want.c, (long)want.r, (long)want.nnz()); checkLines(w, want, g.colptr, g.rowids, g.values, true); };
        { CSC<IT, NT> g = c.SpRef(ri, ci); cmp("SpRef", g); } if (!repR) { { CSC<IT, NT> g = c.SpRef1(ri, ci); cmp("SpRef1", g); } if constexpr (std::is_same<IT, NT>::value) { CSC<IT, NT> g = c.SpRef2(ri.data(), (IT)ri.size(), ci.data(), (IT)ci.size()); cmp("SpRef2", g); } } checkLines("SpRef (operand)", ht, c.colptr, c.rowids, c.values, true); break; }
    case 7: { HMat ht = transpose(h); CSC<IT, NT> c; putC(ht, c, h.r); std::vector<IT> ri; for (int64_t i = 0; i < h.r; ++i) if (t.chance(1, 2)) { ri.push_back(i); if (ri.size() > 200) break; } size_t tot = 0; for (int64_t j = 0; j < std::min<int64_t>(ht.r, 8); ++j) { int64_t b = ht.ptr[j], n = ht.ptr[j + 1] - b; std::vector<IT> wi; std::vector<NT> wv; for (int64_t k = b; k < b + n; ++k) if (std::binary_search(ri.begin(), ri.end(), (IT)ht.col[k])) { wi.push_back(ht.col[k]); wv.push_back(conv(ht.val[k])); }
            Arr<IT> oi(wi.size()); Arr<NT> ov(wi.size()); IT len = (IT)99; c.intersect(c.rowids + b, c.values + b, (IT)n, ri.data(), (IT)ri.size(), oi.p(), ov.p(), &len); PBT_CHECK((size_t)len == wi.size(), "intersect: %lld common rows, expected %zu", (long long)len, wi.size()); oi.guards("intersect"); ov.guards("intersect"); for (size_t k = 0; k < wi.size(); ++k) PBT_CHECK(oi.p()[k] == wi[k] && ov.p()[k] == wv[k], "intersect: entry %zu differs", k); tot += wi.size(); } ctx.nontrivial = tot > 1; break; }
    default: { std::vector<IT> key; std::vector<NT> val; std::vector<std::pair<IT, NT>> want; for (auto x : h.col) key.push_back((IT)x); if (t.chance(1, 2)) for (size_t i = key.size(); i > 1; --i) std::swap(key[i - 1], key[t.draw(i)]); if (key.size() > 4000) key.resize(4000); for (size_t i = 0; i < key.size(); ++i) { val.push_back(conv(h.val[i])); want.push_back({key[i], val[i]}); }
        bool srt = std::is_sorted(key.begin(), key.end()); PBT_CHECK(my_is_sorted(key.begin(), key.end(), std::less<IT>()) == srt, "my_is_sorted says %d for a %s list", !srt, srt ? "sorted" : "unsorted");
        if constexpr (std::is_same<IT, int32_t>::value) if (!key.empty()) { cpu_sorting_key_value<IT, NT>(key.data(), val.data(), (IT)key.size()); for (size_t i = 1; i < key.size(); ++i) PBT_CHECK(key[i - 1] <= key[i], "cpu_sorting_key_value: keys %zu out of order", i); std::vector<std::pair<IT, NT>> got; for (size_t i = 0; i < key.size(); ++i) got.push_back({key[i], val[i]}); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); PBT_CHECK(got == want, "cpu_sorting_key_value lost or mixed (key, value) pairs"); }
        std::vector<IT> io(key.size() + 1, (IT)9); IT s0 = (IT)t.draw(50); ::iota(io.begin(), io.end() - 1, s0); for (size_t i = 0; i + 1 < io.size(); ++i) PBT_CHECK(io[i] == (IT)(s0 + i), "iota: element %zu is %lld", i, (long long)io[i]); PBT_CHECK(io.back() == (IT)9, "iota wrote past its range");
        unsigned n = (unsigned)t.draw(1ull << 32), d = 1u << t.draw(32); PBT_CHECK(getModulo(n, d) == n % d && getDivident(n, d) == n / d, "getModulo/getDivident(%u,%u) = %u/%u", n, d, getModulo(n, d), getDivident(n, d)); } } }
PBT_PROP(ops_int32_double, 3) { ops<int32_t, double>(t, ctx); }
PBT_PROP(ops_int64_int32, 2) { ops<int64_t, int32_t>(t, ctx); }
PBT_PROP(ops_uint32_float, 1) { ops<uint32_t, float>(t, ctx); }
PBT_PROP(ops_uint64_uint64, 1) { ops<uint64_t, uint64_t>(t, ctx); }
#endif
