// Conversion between host matrices and the repository's CSR/CSC, and the checks made after one multiplication.
// Included after the repository's headers.
#pragma once
#include <omp.h>
#include <malloc.h>
#define COMMA ,
namespace kernimpl {
using gen::HMat;
template<class IT, class NT> void toCSR(const HMat &h, CSR<IT, NT> &m) {
    m.make_empty(); m.rows = (IT)h.r; m.cols = (IT)h.c; m.nnz = (IT)h.nnz(); m.zerobased = true;
    m.rowptr = my_malloc<IT>(h.r + 1, false); m.colids = my_malloc<IT>(h.nnz(), false); m.values = my_malloc<NT>(h.nnz(), false);
    for (int64_t i = 0; i <= h.r; ++i) m.rowptr[i] = (IT)h.ptr[i];
    for (int64_t k = 0; k < h.nnz(); ++k) { m.colids[k] = (IT)h.col[k]; m.values[k] = (NT)h.val[k]; } }
template<class IT, class NT> void freeCSR(CSR<IT, NT> &m) { m.make_empty(); }     // (pointers of an empty matrix may be indeterminate)
template<class IT, class NT> bool sameAs(const HMat &h, const CSR<IT, NT> &m) {
    if (m.rows != (IT)h.r || m.cols != (IT)h.c || m.nnz != (IT)h.nnz()) return false;
    for (int64_t i = 0; i <= h.r; ++i) if (m.rowptr[i] != (IT)h.ptr[i]) return false;
    for (int64_t k = 0; k < h.nnz(); ++k) { NT v = (NT)h.val[k]; if (m.colids[k] != (IT)h.col[k] || memcmp(&m.values[k], &v, sizeof(NT))) return false; }
    return true; }
template<class IT, class NT> void toCSC(const HMat &hc /*already column-major: row i = column i*/, CSC<IT, NT> &m, int64_t nrows) {
    m.rows = (IT)nrows; m.cols = (IT)hc.r; m.nnz = (IT)hc.nnz();
    m.colptr = my_malloc<IT>(hc.r + 1, false); m.rowids = my_malloc<IT>(hc.nnz(), false); m.values = my_malloc<NT>(hc.nnz(), false);
    for (int64_t i = 0; i <= hc.r; ++i) m.colptr[i] = (IT)hc.ptr[i];
    for (int64_t k = 0; k < hc.nnz(); ++k) { m.rowids[k] = (IT)hc.col[k]; m.values[k] = (NT)hc.val[k]; } }
template<class IT, class NT> struct CscHolder { CSC<IT, NT> m; HMat t;
    explicit CscHolder(const HMat &b) : t(gen::transpose(b)) { toCSC(t, m, b.r); }
    void verify() { bool ok = m.rows == (IT)t.c && m.cols == (IT)t.r && m.nnz == (IT)t.nnz();
        for (int64_t i = 0; ok && i <= t.r; ++i) ok = m.colptr[i] == (IT)t.ptr[i];
        for (int64_t k = 0; ok && k < t.nnz(); ++k) { NT v = (NT)t.val[k]; ok = m.rowids[k] == (IT)t.col[k] && !memcmp(&m.values[k], &v, sizeof v); }
        if (!ok) pbt::fail("operand B (column-compressed) was changed by the multiplication"); } };

template<class NT> std::string vstr(const NT &v) { if constexpr (std::is_floating_point<NT>::value) return pbt::strf("%.17g", (double)v); else return std::to_string((long long)v); }

// structural validity of a CSR result
template<class IT, class NT> std::string structure(const CSR<IT, NT> &C, int64_t r, int64_t c, bool sorted, std::vector<int64_t> *scratch = nullptr) {
    if ((int64_t)C.rows != r || (int64_t)C.cols != c) return pbt::strf("result is %ld x %ld, expected %ld x %ld", (long)C.rows, (long)C.cols, (long)r, (long)c);
    if (!C.zerobased) return "result is flagged one-based";
    if (C.rowptr[0] != 0) return pbt::strf("row pointer starts at %ld", (long)C.rowptr[0]);
    if (C.nnz < 0 || (int64_t)C.rowptr[r] != (int64_t)C.nnz) return pbt::strf("row pointer ends at %ld, nnz is %ld", (long)C.rowptr[r], (long)C.nnz);
    std::vector<int64_t> seen(c, -1);
    for (int64_t i = 0; i < r; ++i) {
        if (C.rowptr[i + 1] < C.rowptr[i] || (int64_t)C.rowptr[i + 1] > (int64_t)C.nnz) return pbt::strf("row pointer of row %ld: [%ld,%ld) with nnz %ld", (long)i, (long)C.rowptr[i], (long)C.rowptr[i + 1], (long)C.nnz);
        for (int64_t k = C.rowptr[i]; k < (int64_t)C.rowptr[i + 1]; ++k) { int64_t j = (int64_t)C.colids[k];
            if (j < 0 || j >= c) return pbt::strf("row %ld: column %ld outside [0,%ld)", (long)i, (long)j, (long)c);
            if (seen[j] == i) return pbt::strf("row %ld: column %ld twice", (long)i, (long)j); seen[j] = i;
            if (sorted && k > (int64_t)C.rowptr[i] && (int64_t)C.colids[k - 1] >= j) return pbt::strf("row %ld: columns %ld,%ld out of order", (long)i, (long)C.colids[k - 1], (long)j); } }
    return ""; }

template<class IT, class NT> std::string compareRef(const CSR<IT, NT> &C, const std::vector<std::map<int64_t, NT>> &ref) {
    for (int64_t i = 0; i < (int64_t)ref.size(); ++i) {
        int64_t n = (int64_t)C.rowptr[i + 1] - (int64_t)C.rowptr[i];
        for (int64_t k = C.rowptr[i]; k < (int64_t)C.rowptr[i + 1]; ++k) { auto it = ref[i].find((int64_t)C.colids[k]);
            if (it == ref[i].end()) return pbt::strf("entry (%ld,%ld)=%s should not be stored", (long)i, (long)C.colids[k], vstr(C.values[k]).c_str());
            if (!(C.values[k] == it->second)) return pbt::strf("entry (%ld,%ld) is %s, expected %s", (long)i, (long)C.colids[k], vstr(C.values[k]).c_str(), vstr(it->second).c_str()); }
        if (n != (int64_t)ref[i].size()) { std::set<int64_t> have; for (int64_t k = C.rowptr[i]; k < (int64_t)C.rowptr[i + 1]; ++k) have.insert(C.colids[k]);
            for (auto &e : ref[i]) if (!have.count(e.first)) return pbt::strf("entry (%ld,%ld) is missing (expected %s; row has %ld of %ld entries)", (long)i, (long)e.first, vstr(e.second).c_str(), (long)n, (long)ref[i].size()); } }
    return ""; }

// the reference of the last problem (a case runs many kernels on one problem)
template<class NT, int MODE> const std::vector<std::map<int64_t, NT>> &refFor(const gen::Problem &p) {
    static const gen::Problem *last = nullptr; static int semi = -1; static uint64_t fp = 0; static std::vector<std::map<int64_t, NT>> r;
    uint64_t h = 77; auto mixv = [&](const std::vector<int64_t> &v) { for (auto x : v) h = pbt::mix64(h ^ (uint64_t)x); };
    for (auto *m : {&p.A, &p.B, &p.M}) { h = pbt::mix64(h ^ (uint64_t)(m->r * 1000003 + m->c)); mixv(m->ptr); mixv(m->col); mixv(m->val); }
    if (last != &p || semi != p.semi || fp != h) { r = gen::reference<NT>(p.A, p.B, &p.M, MODE, p.semi); last = &p; semi = p.semi; fp = h; }
    return r; }

template<class K, class IT, class NT, int MODE> kern::Out checkRun(const kern::Args &a) {
    const gen::Problem &p = *a.p; kern::Out o;
    if (a.perturb) mallopt(M_PERTURB, a.perturb);
    CSR<IT, NT> A, B, M, fresh; toCSR(p.A, A);
    bool sAB = a.shareAB && p.sameAB, sAM = a.shareAM && p.sameAM, sBM = a.shareBM && p.sameAB && p.sameAM;
    if (!sAB && !sBM) toCSR(p.B, B); if (!sAM && !sBM) toCSR(p.M, M);
    // sBM: B and M are one object, distinct from A
    if (sBM && !sAB) toCSR(p.B, B);
    CSR<IT, NT> &rB = sAB ? A : B; CSR<IT, NT> &rM = sAM ? A : (sBM ? rB : M);
    CSR<IT, NT> *C = &fresh;
    if (a.alias == kern::REUSED) { HMat old; old.r = 3; old.c = 4; old.ptr = {0, 2, 2, 3}; old.col = {1, 3, 0}; old.val = {7, 8, 9}; toCSR(old, fresh); }
    else if (a.alias == kern::ALIAS_A) C = &A; else if (a.alias == kern::ALIAS_B) C = &rB; else if (a.alias == kern::ALIAS_M) C = &rM;
    auto widen = [&](CSR<IT, NT> &m) { for (int64_t k = 0; k < (int64_t)m.nnz; ++k) m.colids[k] = (IT)a.wide[(int64_t)m.colids[k]]; m.cols = (IT)a.wide.back(); };
    auto narrow = [&](const char *w, CSR<IT, NT> &m) { if ((int64_t)m.cols != a.wide.back()) { o.err = pbt::strf("%s has %ld columns, expected %ld", w, (long)m.cols, (long)a.wide.back()); return; }
        int64_t stored = &m == C ? (int64_t)m.rowptr[p.A.r] : (int64_t)m.nnz; if (stored != (int64_t)m.nnz) { o.err = pbt::strf("row pointer ends at %ld, nnz is %ld", (long)stored, (long)m.nnz); return; }
        for (int64_t k = 0; k < stored; ++k) { auto it = std::lower_bound(a.wide.begin(), a.wide.end() - 1, (int64_t)m.colids[k]); if (it == a.wide.end() - 1 || *it != (int64_t)m.colids[k]) { o.err = pbt::strf("%s: column %ld of %ld holds no product", w, (long)m.colids[k], (long)m.cols); return; } m.colids[k] = (IT)(it - a.wide.begin()); } m.cols = (IT)p.B.c; };
    bool wide = !a.wide.empty(); if (wide) { widen(rB); if (&rM != &rB) widen(rM); }
    unsigned th = p.threads; if (a.useDefaultThreads) { omp_set_num_threads((int)p.threads); th = 0; }
#ifdef COUNT_OPS
    gen::g_muls = gen::g_adds = 0;
#endif
    K::run(A, rB, p, *C, rM, gen::Mul<NT>{p.semi}, gen::Add<NT>{p.semi}, th);
    o.nnz = C->nnz;
#ifdef COUNT_OPS
    o.muls = gen::g_muls; o.adds = gen::g_adds;
#endif
    if (wide) { narrow("the result", *C); if (o.err.empty() && &rB != C) narrow("operand B", rB); if (o.err.empty() && &rM != &rB && &rM != C) narrow("the mask", rM); }
    if (o.err.empty()) o.err = structure(*C, p.A.r, p.B.c, false);
    if (o.err.empty() && a.expect) { std::vector<std::map<int64_t, NT>> want(a.expect->r); for (int64_t i = 0; i < a.expect->r; ++i) for (int64_t k = a.expect->ptr[i]; k < a.expect->ptr[i + 1]; ++k) want[i][a.expect->col[k]] = (NT)a.expect->val[k]; o.err = compareRef(*C, want); }
    else if (o.err.empty() && a.checkValues) o.err = compareRef(*C, refFor<NT, MODE>(p));
    if (o.err.empty() && a.keep) { for (int64_t i = 0; i <= p.A.r; ++i) o.ptr.push_back(C->rowptr[i]); for (int64_t k = 0; k < (int64_t)C->nnz; ++k) { o.col.push_back(C->colids[k]); uint64_t b = 0; if constexpr (sizeof(NT) <= 8) memcpy(&b, &C->values[k], sizeof(NT)); else b = (uint64_t)C->values[k]; o.bits.push_back(b); } }
    if (o.err.empty() && a.checkOperands) {
        if (&A != C && !sameAs(p.A, A)) o.err = "operand A was changed by the multiplication";
        else if (&rB != C && !sameAs(p.B, rB)) o.err = "operand B was changed by the multiplication";
        else if (&rM != C && !sameAs(p.M, rM)) o.err = "the mask was changed by the multiplication"; }
    if (o.err.empty()) { freeCSR(A); if (!sAB && !(sBM && &rB == &A)) freeCSR(B); if (!sAM && !sBM) freeCSR(M); if (C == &fresh) freeCSR(fresh); }
    if (a.perturb) mallopt(M_PERTURB, 0);
    return o; }
} // namespace kernimpl
