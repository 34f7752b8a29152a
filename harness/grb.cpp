// C19: exchange of matrices with GraphBLAS, as histories over one matrix that is passed back and forth.
#include <numeric>
#include <cstring>
#include <cassert>
#include <tuple>
#include "CSR.h"
#include "CSC.h"
#include "kern.h"
#include "kern_impl.h"
#include "quiet.h"
using namespace gen; using namespace pbt;
namespace pbt { const char *g_rule = "one case = one generated matrix (rectangular, empty, empty rows and columns, one entry, all values equal) of one value type, and a history of 1-12 exchanges: built in GraphBLAS from its entries in any order, unpacked to CSR or CSC and packed back, exported by CSR(GrB_Matrix*) with and without duplication, "
    "copied by get_grb_mat(GrB_Matrix*) (also one-based), imported by get_grb_mat_ptr, converted to column format, with GraphBLAS set to row or column format and 1-4 threads; after every step the holder is compared with the model through GraphBLAS' own extractTuples or the CSR/CSC arrays. "
    "Separately: lower triangle, relabelling by degree, reading the algebraic objects. Non-trivial: at least two entries in two rows and columns, and at least two different exchanges; distinct by the list of generator draws"; }
typedef uint64_t U;
static void init() { static bool done = false; if (!done) { done = true; GrB_init(GrB_BLOCKING); } GxB_Global_Option_set(GxB_BURBLE, false);
    double bs[GxB_NBITMAP_SWITCH]; std::fill(bs, bs + GxB_NBITMAP_SWITCH, 1.0); GxB_Global_Option_set(GxB_BITMAP_SWITCH, bs); GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER); GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW); }
template<class NT> struct GT; // GraphBLAS' own functions for a type (not the repository's wrappers)
#define G(T, N) template<> struct GT<T> { static GrB_Type type() { return GrB_##N; } static GrB_Info tuples(U *i, U *j, T *v, U *n, GrB_Matrix A) { return GrB_Matrix_extractTuples_##N(i, j, v, n, A); } \
    static GrB_Info build(GrB_Matrix A, const U *i, const U *j, const T *v, U n) { return GrB_Matrix_build_##N(A, i, j, v, n, GrB_PLUS_##N); } };
G(uint64_t, UINT64) G(int64_t, INT64) G(uint32_t, UINT32) G(int32_t, INT32) G(float, FP32) G(double, FP64)
typedef std::map<std::pair<int64_t, int64_t>, int64_t> Ents;
template<class NT> static void cmpGrb(const char *w, GrB_Matrix A, int64_t r, int64_t c, const Ents &e) {
    PBT_CHECK(A, "%s: no matrix", w); U nr, nc, nv; GrB_Matrix_nrows(&nr, A); GrB_Matrix_ncols(&nc, A); PBT_CHECK(GrB_Matrix_nvals(&nv, A) == GrB_SUCCESS, "%s: the GraphBLAS matrix is invalid", w); PBT_CHECK((int64_t)nr == r && (int64_t)nc == c && nv == e.size(), "%s: GraphBLAS holds %llu x %llu with %llu entries, expected %ld x %ld with %zu", w, (unsigned long long)nr, (unsigned long long)nc, (unsigned long long)nv, (long)r, (long)c, e.size());
    GrB_Type ty; GxB_Matrix_type(&ty, A); PBT_CHECK(ty == GT<NT>::type(), "%s: the GraphBLAS matrix has another type", w);
    PBT_CHECK(GxB_Matrix_fprint(A, "A", GxB_SILENT, nullptr) == GrB_SUCCESS, "%s: GraphBLAS finds the matrix inconsistent", w);
    std::vector<U> i(nv), j(nv); std::vector<NT> v(nv); U n = nv; PBT_CHECK(GT<NT>::tuples(i.data(), j.data(), v.data(), &n, A) == GrB_SUCCESS && n == nv, "%s: GraphBLAS cannot list the entries", w);
    for (U k = 0; k < nv; ++k) { auto it = e.find({(int64_t)i[k], (int64_t)j[k]}); PBT_CHECK(it != e.end(), "%s: GraphBLAS holds (%llu,%llu), which was not given", w, (unsigned long long)i[k], (unsigned long long)j[k]); PBT_CHECK(v[k] == (NT)it->second, "%s: entry (%llu,%llu) is %s, expected %s", w, (unsigned long long)i[k], (unsigned long long)j[k], kernimpl::vstr(v[k]).c_str(), kernimpl::vstr((NT)it->second).c_str()); } }
template<class NT> static void cmpLines(const char *w, int64_t lines, bool rowsAreLines, const Ents &e, const U *ptr, const U *ids, const NT *v, U nnz) {
    PBT_CHECK(nnz == e.size(), "%s: %llu entries, expected %zu", w, (unsigned long long)nnz, e.size()); PBT_CHECK(ptr && ptr[0] == 0 && ptr[lines] == nnz, "%s: offsets do not span the entries", w);
    for (int64_t i = 0; i < lines; ++i) { PBT_CHECK(ptr[i] <= ptr[i + 1] && ptr[i + 1] <= nnz, "%s: offset %ld is wrong", w, (long)i); for (U k = ptr[i]; k < ptr[i + 1]; ++k) { PBT_CHECK(k == ptr[i] || ids[k - 1] < ids[k], "%s: line %ld is out of order", w, (long)i); auto it = e.find(rowsAreLines ? std::make_pair(i, (int64_t)ids[k]) : std::make_pair((int64_t)ids[k], i));
        PBT_CHECK(it != e.end(), "%s: line %ld holds %llu, which was not given", w, (long)i, (unsigned long long)ids[k]); PBT_CHECK(v[k] == (NT)it->second, "%s: line %ld position %llu is %s, expected %s", w, (long)i, (unsigned long long)ids[k], kernimpl::vstr(v[k]).c_str(), kernimpl::vstr((NT)it->second).c_str()); } } }
static Ents entries(const HMat &m) { Ents e; for (int64_t i = 0; i < m.r; ++i) for (int64_t k = m.ptr[i]; k < m.ptr[i + 1]; ++k) e[{i, m.col[k]}] = m.val[k]; return e; }
static HMat anyMat(Tape &t, ValSpec vs, bool square = false) { int64_t r, c, b = 200; bool far = false; switch (t.weighted({500, 500, 100, 100, 100, 4, 2})) { case 0: r = t.range(1, 6); c = t.range(1, 6); break; case 1: r = t.range(1, 40); c = t.range(1, 40); break; case 2: r = t.range(1, 400); c = t.range(1, 400); b = 2000; break; case 3: r = t.range(1, 2000); c = t.range(1, 9); b = 3000; break; case 4: r = t.range(1, 9); c = t.range(1, 5000); b = 3000; break;
    case 5: far = true; r = t.chance(1, 2) ? 65500 + t.draw(60000) : 1 + t.draw(30); c = t.chance(1, 2) || r < 50 ? 65500 + t.draw(t.chance(1, 3) ? 1200000 : 60000) : 1 + t.draw(3000); b = 1500; break; default: far = true; r = 200 + t.draw(5000); c = 200 + t.draw(5000); b = 66000 + t.draw(30000); } if (square) { r = std::min<int64_t>(std::max(r, c), far ? 140000 : 600); c = r; } return genMat(t, r, c, b, vs, false); }
static bool spread(const Ents &e) { std::set<int64_t> r, c; for (auto &x : e) { r.insert(x.first.first); c.insert(x.first.second); } return r.size() > 1 && c.size() > 1; }
template<class NT> static GrB_Matrix rawBuild(const HMat &m) { std::vector<U> i, j; std::vector<NT> v; for (int64_t r = 0; r < m.r; ++r) for (int64_t k = m.ptr[r]; k < m.ptr[r + 1]; ++k) { i.push_back(r); j.push_back(m.col[k]); v.push_back((NT)m.val[k]); } GrB_Matrix A = nullptr; GrB_Matrix_new(&A, GT<NT>::type(), m.r, m.c); GrB_Info info = GT<NT>::build(A, i.data(), j.data(), v.data(), i.size()); if (info != GrB_SUCCESS) throw Discard{"GraphBLAS rejects the entries"}; return A; }
template<class NT> static bool iso(GrB_Matrix A) { bool b = false; GxB_Matrix_iso(&b, A); return b; }

template<class NT> static void exchange(Tape &t, Ctx &ctx) {
    init(); GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, (int)t.range(1, 4)); bool sg = std::is_signed<NT>::value; int st = t.weighted({6, 1, 1}); ValSpec vs{sg ? -8 : 0, st == 2 && sizeof(NT) == 8 ? (int64_t)1 << 40 : 8}; if (st == 1) vs = ValSpec{1, 1};
    HMat m = anyMat(t, vs); Ents e = entries(m); int steps = (int)t.range(1, 12); ctx.note(strf("%s, %d exchanges:", m.str(250).c_str(), steps)); std::set<int> kinds; GrB_Matrix A = nullptr;
    {   // build from shuffled triples through the repository's builder
        std::vector<U> i, j; std::vector<NT> v; for (auto &x : e) { i.push_back(x.first.first); j.push_back(x.first.second); v.push_back((NT)x.second); } RngSrc rs(t.draw(0)); if (t.chance(2, 3)) for (size_t k = i.size(); k > 1; --k) { size_t q = rs.draw(k); std::swap(i[k - 1], i[q]); std::swap(j[k - 1], j[q]); std::swap(v[k - 1], v[q]); }
        GrbMatrixBuild<NT>()(&A, i.data(), j.data(), v.data(), (U)m.r, (U)m.c, (U)e.size()); cmpGrb<NT>("GrbMatrixBuild", A, m.r, m.c, e);
        U n = e.size(); std::vector<U> i2(n), j2(n); std::vector<NT> v2(n); GrbMatrixExtractTuples<NT>()(i2.data(), j2.data(), v2.data(), &n, A); PBT_CHECK(n == e.size(), "GrbMatrixExtractTuples lists %llu of %zu entries", (unsigned long long)n, e.size()); for (U k = 0; k < n; ++k) { auto it = e.find({(int64_t)i2[k], (int64_t)j2[k]}); PBT_CHECK(it != e.end() && v2[k] == (NT)it->second, "GrbMatrixExtractTuples: entry %llu is wrong", (unsigned long long)k); } }
    auto noniso = [&]() { if (iso<NT>(A)) GxB_Matrix_Option_set(A, GxB_FORMAT, GxB_BY_ROW);
        if constexpr (!std::is_same<NT, int32_t>::value && !std::is_same<NT, uint32_t>::value) if (iso<NT>(A) && !e.empty() && t.chance(1, 2)) { auto it = e.begin(); std::advance(it, t.draw(e.size())); if (t.chance(1, 2)) it->second = sg ? -3 : 5; avoid_iso<NT>(A, (NT)it->second, (U)it->first.first, (U)it->first.second); GrB_Matrix_wait(A, GrB_MATERIALIZE); ctx.note(" avoid_iso"); cmpGrb<NT>("avoid_iso", A, m.r, m.c, e); }
        };
    for (int s = 0; s < steps; ++s) { int op = t.draw(8); if (t.chance(1, 5)) { bool col = t.chance(1, 2); GxB_Matrix_Option_set(A, GxB_FORMAT, col ? GxB_BY_COL : GxB_BY_ROW); ctx.note(col ? " by-col" : " by-row"); }
        switch (op) {
        case 0: case 1: { noniso(); ctx.note(" unpack-CSR"); CSR<U, NT> r(A); PBT_CHECK((int64_t)r.rows == m.r && (int64_t)r.cols == m.c && r.zerobased, "CSR(GrB_Matrix): %llu x %llu", (unsigned long long)r.rows, (unsigned long long)r.cols); cmpLines("CSR(GrB_Matrix)", m.r, true, e, r.rowptr, r.colids, r.values, r.nnz); cmpGrb<NT>("CSR(GrB_Matrix): source after hand-over", A, m.r, m.c, {});
            if (op == 1 && !e.empty()) { for (U k = 0; k < r.nnz; ++k) r.values[k] = (NT)(r.values[k] + 1); for (auto &x : e) x.second += 1; }  // work on the matrix in between
            r.get_grb_mat(A); cmpGrb<NT>("get_grb_mat (hand-over)", A, m.r, m.c, e); PBT_CHECK(!r.rowptr && !r.colids && !r.values, "get_grb_mat (hand-over) left the CSR attached to its storage"); break; }
        case 2: { ctx.note(" unpack-CSC"); CSC<U, NT> c(A); if (e.size() == c.nnz && !e.empty()) {} PBT_CHECK((int64_t)c.rows == m.r && (int64_t)c.cols == m.c, "CSC(GrB_Matrix): %llu x %llu", (unsigned long long)c.rows, (unsigned long long)c.cols); cmpLines("CSC(GrB_Matrix)", m.c, false, e, c.colptr, c.rowids, c.values, c.nnz); cmpGrb<NT>("CSC(GrB_Matrix): source after hand-over", A, m.r, m.c, {}); c.get_grb_mat(A); cmpGrb<NT>("CSC get_grb_mat (hand-over)", A, m.r, m.c, e); PBT_CHECK(!c.colptr && !c.rowids && !c.values, "CSC get_grb_mat left the CSC attached to its storage"); break; }
        case 3: { ctx.note(" export-dup"); CSR<U, NT> r(&A, true); PBT_CHECK((int64_t)r.rows == m.r && (int64_t)r.cols == m.c && r.zerobased, "CSR(GrB_Matrix*, dup): %llu x %llu", (unsigned long long)r.rows, (unsigned long long)r.cols); cmpLines("CSR(GrB_Matrix*, dup)", m.r, true, e, r.rowptr, r.colids, r.values, r.nnz); cmpGrb<NT>("CSR(GrB_Matrix*, dup): source", A, m.r, m.c, e); break; }
        case 4: { ctx.note(" export-import"); CSR<U, NT> r(&A, false); A = nullptr; PBT_CHECK((int64_t)r.rows == m.r && (int64_t)r.cols == m.c && r.zerobased, "CSR(GrB_Matrix*): %llu x %llu", (unsigned long long)r.rows, (unsigned long long)r.cols); cmpLines("CSR(GrB_Matrix*)", m.r, true, e, r.rowptr, r.colids, r.values, r.nnz);
            r.get_grb_mat_ptr(&A); cmpGrb<NT>("get_grb_mat_ptr", A, m.r, m.c, e); PBT_CHECK(!r.rowptr && !r.colids && !r.values, "get_grb_mat_ptr left the CSR attached to its storage"); break; }
        case 5: { bool one = t.chance(1, 3); ctx.note(one ? " copy-one-based" : " copy"); HMat cur; cur.r = m.r; cur.c = m.c; cur.ptr.assign(1, 0); auto it = e.begin(); for (int64_t i = 0; i < m.r; ++i) { for (; it != e.end() && it->first.first == i; ++it) { cur.col.push_back(it->first.second); cur.val.push_back(it->second); } cur.ptr.push_back(cur.nnz()); } if (t.chance(1, 3)) shuffleRows(t, cur);
            CSR<U, NT> r; kernimpl::toCSR(cur, r); if (one) r.ConvertOneBased(); GrB_Matrix B = nullptr; if (t.chance(1, 2)) GrB_Matrix_new(&B, GT<NT>::type(), 3, 2); GrB_Matrix old = B; r.get_grb_mat(&B); cmpGrb<NT>(one ? "get_grb_mat (copy, one-based)" : "get_grb_mat (copy)", B, m.r, m.c, e); if (one) { PBT_CHECK(!r.zerobased, "get_grb_mat (copy) changed the base of its source"); r.ConvertZeroBased(); } PBT_CHECK(kernimpl::sameAs(cur, r), "get_grb_mat (copy) changed its source"); (void)old; GrB_Matrix_free(&A); A = B; break; }
        case 6: { ctx.note(" to-csc"); bool byCol = t.chance(1, 3); GxB_Global_Option_set(GxB_FORMAT, byCol ? GxB_BY_COL : GxB_BY_ROW); GrB_Matrix B = nullptr; convert_to_csc<NT>(A, &B); GxB_Format_Value f, g; GxB_Matrix_Option_get(B, GxB_FORMAT, &f); GxB_Global_Option_get(GxB_FORMAT, &g); GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW); PBT_CHECK(f == GxB_BY_COL || m.r == 1 || m.c == 1, "convert_to_csc: the result is not stored by columns"); PBT_CHECK(g == (byCol ? GxB_BY_COL : GxB_BY_ROW), "convert_to_csc changed the global format"); cmpGrb<NT>("convert_to_csc", B, m.r, m.c, e); cmpGrb<NT>("convert_to_csc: source", A, m.r, m.c, e); GrB_Matrix_free(&A); A = B; break; }
        default: if constexpr (!std::is_same<NT, int32_t>::value && !std::is_same<NT, uint32_t>::value) { ctx.note(" set"); U i = t.draw(m.r), j = t.draw(m.c); int64_t v = genVal(t, vs); e[{(int64_t)i, (int64_t)j}] = v; if (t.chance(1, 2)) avoid_iso<NT>(A, (NT)v, i, j); else GrbMatrixSetElement<NT>()(A, (NT)v, i, j); GrB_Matrix_wait(A, GrB_MATERIALIZE); cmpGrb<NT>("set element", A, m.r, m.c, e); } }
        kinds.insert(op); }
    GrB_Matrix_free(&A); ctx.nontrivial = spread(e) && kinds.size() > 1; ctx.label(e.empty() ? "empty" : e.size() == 1 ? "one entry" : "entries"); }

template<class NT> static void tools(Tape &t, Ctx &ctx) {
    init(); GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, (int)t.range(1, 4)); HMat m = anyMat(t, ValSpec{1, 8}, true); int op = t.draw(2); ctx.label(op ? "sort_by_degree" : "get_lowtri"); bool sym = t.chance(1, 2); std::set<std::pair<int64_t, int64_t>> pos; for (auto &x : entries(m)) { pos.insert(x.first); if (sym) pos.insert({x.first.second, x.first.first}); }
    Ents e; int64_t id = 1; for (auto &p : pos) e[p] = id++; HMat u; u.r = u.c = m.r; u.ptr.assign(1, 0); auto it = e.begin(); for (int64_t i = 0; i < m.r; ++i) { for (; it != e.end() && it->first.first == i; ++it) { u.col.push_back(it->first.second); u.val.push_back(it->second); } u.ptr.push_back(u.nnz()); } m = u;
    ctx.note(m.str(300)); GrB_Matrix A = rawBuild<NT>(m); ctx.nontrivial = spread(e);
    if (op == 0) { GrB_Matrix L = nullptr; get_lowtri<NT>(A, &L); Ents low; for (auto &x : e) if (x.first.second < x.first.first) low[x.first] = x.second; cmpGrb<NT>("get_lowtri", L, m.r, m.r, low); cmpGrb<NT>("get_lowtri: source", A, m.r, m.r, e); GrB_Matrix_free(&L); ctx.nontrivial &= !low.empty() && low.size() < e.size(); }
    else { GrB_Matrix keep = A; sort_by_degree<NT>(&A); U nr, nc, nv; GrB_Matrix_nrows(&nr, A); GrB_Matrix_ncols(&nc, A); GrB_Matrix_nvals(&nv, A); PBT_CHECK((int64_t)nr == m.r && (int64_t)nc == m.r && nv == e.size(), "sort_by_degree: %llux%llu with %llu entries from %ldx%ld with %zu", (unsigned long long)nr, (unsigned long long)nc, (unsigned long long)nv, (long)m.r, (long)m.r, e.size());
        std::vector<U> i(nv), j(nv); std::vector<NT> v(nv); U n = nv; GT<NT>::tuples(i.data(), j.data(), v.data(), &n, A); std::vector<std::pair<int64_t, int64_t>> at(e.size() + 1); for (auto &x : e) at[x.second] = x.first; std::vector<int64_t> deg(nr), to(nr, -1), from(nr, -1); std::vector<char> used(e.size() + 1);
        for (U k = 0; k < n; ++k) { size_t q = (size_t)v[k]; PBT_CHECK((NT)q == v[k] && q >= 1 && q <= e.size() && !used[q], "sort_by_degree: a value was changed or repeated"); used[q] = 1; deg[i[k]]++; for (int side = 0; side < 2; ++side) { int64_t o = side ? at[q].second : at[q].first, w = side ? j[k] : i[k]; PBT_CHECK((to[o] == -1 || to[o] == w) && (from[w] == -1 || from[w] == o), "sort_by_degree: the edge (%ld,%ld) became (%llu,%llu), which no renaming of the vertices explains", (long)at[q].first, (long)at[q].second, (unsigned long long)i[k], (unsigned long long)j[k]); to[o] = w; from[w] = o; } }
        for (size_t k = 1; k < deg.size(); ++k) PBT_CHECK(deg[k] <= deg[k - 1], "sort_by_degree: vertex %zu has more entries (%ld) than vertex %zu (%ld)", k, (long)deg[k], k - 1, (long)deg[k - 1]); (void)keep; }
    GrB_Matrix_free(&A); }

// the algebraic objects handed to GraphBLAS: evaluated on one product
template<class NT> static NT apply(GrB_Semiring s, NT a, NT b, NT c, NT d) {   // (a op c) + (b op d)
    HMat x, y; x.r = 1; x.c = 2; x.ptr = {0, 2}; x.col = {0, 1}; x.val = {(int64_t)a, (int64_t)b}; y.r = 2; y.c = 1; y.ptr = {0, 1, 2}; y.col = {0, 0}; y.val = {(int64_t)c, (int64_t)d}; GrB_Matrix X = rawBuild<NT>(x), Y = rawBuild<NT>(y), Z = nullptr; GrB_Matrix_new(&Z, GT<NT>::type(), 1, 1); PBT_CHECK(GrB_mxm(Z, nullptr, nullptr, s, X, Y, nullptr) == GrB_SUCCESS, "the semiring does not fit the type"); U i, j, n = 1; NT v = 0; GT<NT>::tuples(&i, &j, &v, &n, Z); GrB_Matrix_free(&X); GrB_Matrix_free(&Y); GrB_Matrix_free(&Z); PBT_CHECK(n == 1, "no product"); return v; }
template<class T, class = void> struct HasPair : std::false_type {}; template<class T> struct HasPair<T, std::void_t<decltype(GrbAlgObj<T>().get_sr_plus_pair())>> : std::true_type {};
template<class T, class = void> struct HasLand : std::false_type {}; template<class T> struct HasLand<T, std::void_t<decltype(GrbAlgObj<T>().get_sr_plus_land())>> : std::true_type {};
template<class T, class = void> struct HasOne : std::false_type {}; template<class T> struct HasOne<T, std::void_t<decltype(GrbAlgObj<T>().get_unary_set_one())>> : std::true_type {};
template<class T, class = void> struct HasTimes : std::false_type {}; template<class T> struct HasTimes<T, std::void_t<decltype(GrbAlgObj<T>().get_binary_times())>> : std::true_type {};
template<class NT> static void algebra(Tape &t, Ctx &ctx) {
    init(); GrbAlgObj<NT> o; NT a = (NT)t.draw(9), b = (NT)t.draw(9), c = (NT)t.draw(9), d = (NT)t.draw(9); ctx.note(strf("%s %s %s %s", kernimpl::vstr(a).c_str(), kernimpl::vstr(b).c_str(), kernimpl::vstr(c).c_str(), kernimpl::vstr(d).c_str())); ctx.nontrivial = a != b && c != d && a * c + b * d != 2 && d;
    PBT_CHECK(o.get_type() == GT<NT>::type(), "get_type is another type"); PBT_CHECK(apply<NT>(o.get_sr_plus_times(), a, b, c, d) == a * c + b * d, "get_sr_plus_times is not plus-times"); PBT_CHECK(apply<NT>(o.get_sr_plus_second(), a, b, c, d) == c + d, "get_sr_plus_second is not plus-second");
    if constexpr (HasPair<NT>::value) PBT_CHECK(apply<NT>(o.get_sr_plus_pair(), a, b, c, d) == (NT)2, "get_sr_plus_pair is not plus-pair");
    if constexpr (HasLand<NT>::value) PBT_CHECK(apply<NT>(o.get_sr_plus_land(), a, b, c, d) == (NT)((a && c) + (b && d)), "get_sr_plus_land is not plus-land");
    HMat x, y; x.r = 1; x.c = 2; x.ptr = {0, 2}; x.col = {0, 1}; x.val = {(int64_t)a, (int64_t)b}; y = x; y.val = {(int64_t)c, (int64_t)d}; GrB_Matrix X = rawBuild<NT>(x), Y = rawBuild<NT>(y), Z = nullptr; auto fresh = [&]() { if (Z) GrB_Matrix_free(&Z); GrB_Matrix_new(&Z, GT<NT>::type(), 1, 2); }; auto is = [&](const char *w, NT p, NT q) { Ents e{{{0, 0}, (int64_t)p}, {{0, 1}, (int64_t)q}}; cmpGrb<NT>(w, Z, 1, 2, e); };
    fresh(); GrB_Matrix_eWiseAdd_BinaryOp(Z, nullptr, nullptr, o.get_binary_plus(), X, Y, nullptr); is("get_binary_plus", a + c, b + d); if constexpr (HasTimes<NT>::value) { fresh(); GrB_Matrix_eWiseMult_BinaryOp(Z, nullptr, nullptr, o.get_binary_times(), X, Y, nullptr); is("get_binary_times", a * c, b * d); }
    fresh(); GrB_Matrix_eWiseAdd_Monoid(Z, nullptr, nullptr, o.get_monoid_plus(), X, Y, nullptr); is("get_monoid_plus", a + c, b + d); if constexpr (HasOne<NT>::value) { fresh(); GrB_Matrix_apply(Z, nullptr, nullptr, o.get_unary_set_one(), X, nullptr); is("get_unary_set_one", 1, 1); }
    if constexpr (std::is_same<NT, U>::value) { U s = 0; GrbMatrixReduce<U>()(&s, o.get_monoid_plus(), X, nullptr); PBT_CHECK(s == a + b, "GrbMatrixReduce is %llu", (unsigned long long)s); }
    GrB_Matrix_free(&X); GrB_Matrix_free(&Y); GrB_Matrix_free(&Z); }
PBT_PROP(exchange_int64, 4) { exchange<int64_t>(t, ctx); }
PBT_PROP(exchange_uint64, 3) { exchange<uint64_t>(t, ctx); }
PBT_PROP(exchange_double, 4) { exchange<double>(t, ctx); }
PBT_PROP(exchange_float, 3) { exchange<float>(t, ctx); }
PBT_PROP(exchange_int32, 3) { exchange<int32_t>(t, ctx); }
PBT_PROP(exchange_uint32, 3) { exchange<uint32_t>(t, ctx); }
PBT_PROP(tools_int64, 2) { tools<int64_t>(t, ctx); }
PBT_PROP(tools_uint64, 1) { tools<uint64_t>(t, ctx); }
PBT_PROP(tools_double, 1) { tools<double>(t, ctx); }
PBT_PROP(tools_int32, 1) { tools<int32_t>(t, ctx); }
PBT_PROP(algebra_int64, 1) { algebra<int64_t>(t, ctx); }
PBT_PROP(algebra_uint64, 1) { algebra<uint64_t>(t, ctx); }
PBT_PROP(algebra_double, 1) { algebra<double>(t, ctx); }
PBT_PROP(algebra_float, 1) { algebra<float>(t, ctx); }
PBT_PROP(algebra_int32, 1) { algebra<int32_t>(t, ctx); }
PBT_PROP(algebra_uint32, 1) { algebra<uint32_t>(t, ctx); }
