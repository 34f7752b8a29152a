// Brute-force reference for the demonstrations
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <vector>
#include <tuple>
#include <set>
#include "CSR.h"
#include "CSC.h"
#include "multiply.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
typedef std::map<std::pair<long, long>, double> Ref;
struct Coo { long r, c; Ref e; };
template<class IT, class NT> CSR<IT, NT> *toCSR(const Coo &m) {
    auto *a = new CSR<IT, NT>();
    a->rows = m.r; a->cols = m.c; a->nnz = m.e.size(); a->zerobased = true;
    a->rowptr = my_malloc<IT>(m.r + 1); a->colids = my_malloc<IT>(m.e.size()); a->values = my_malloc<NT>(m.e.size());
    for (long i = 0; i <= m.r; i++) a->rowptr[i] = 0;
    IT k = 0;
    for (auto &x : m.e) { a->rowptr[x.first.first + 1]++; a->colids[k] = x.first.second; a->values[k++] = x.second; }
    for (long i = 0; i < m.r; i++) a->rowptr[i + 1] += a->rowptr[i];
    return a;
}
template<class IT, class NT> CSC<IT, NT> *toCSC(const Coo &m) {
    auto *a = new CSC<IT, NT>();
    a->rows = m.r; a->cols = m.c; a->nnz = m.e.size(); 
    a->colptr = my_malloc<IT>(m.c + 1); a->rowids = my_malloc<IT>(m.e.size()); a->values = my_malloc<NT>(m.e.size());
    for (long i = 0; i <= m.c; i++) a->colptr[i] = 0;
    std::map<std::pair<long, long>, double> t;
    for (auto &x : m.e) t[{x.first.second, x.first.first}] = x.second;
    IT k = 0;
    for (auto &x : t) { a->colptr[x.first.first + 1]++; a->rowids[k] = x.first.second; a->values[k++] = x.second; }
    for (long i = 0; i < m.c; i++) a->colptr[i + 1] += a->colptr[i];
    return a;
}
inline Ref masked(const Coo &A, const Coo &B, const Coo *M, bool comp) {
    Ref c; std::map<long, std::vector<std::pair<long, double>>> rows;
    for (auto &b : B.e) rows[b.first.first].push_back({b.first.second, b.second});
    for (auto &a : A.e) { auto f = rows.find(a.first.second); if (f == rows.end()) continue;
        for (auto &b : f->second) { if (M && (M->e.count({a.first.first, b.first}) != 0) == comp) continue; c[{a.first.first, b.first}] += a.second * b.second; } }
    return c;
}
template<class IT, class NT> bool same(const CSR<IT, NT> &C, const Ref &ref, const char *what, bool sorted = false) {
    Ref got; bool ok = true;
    for (IT i = 0; i < C.rows; i++) for (IT k = C.rowptr[i]; k < C.rowptr[i + 1]; k++) {
        if (!got.insert({{i, C.colids[k]}, (double) C.values[k]}).second) ok = false;
        if (sorted && k > C.rowptr[i] && C.colids[k] <= C.colids[k - 1]) ok = false;
    }
    ok = ok && got == ref;
    if (!ok) std::printf("WRONG: %s (%zu entries, expected %zu)\n", what, got.size(), ref.size());
    return ok;
}
inline Coo randomCoo(std::mt19937 &g, long r, long c, double d) {
    Coo m{r, c, {}};
    for (long i = 0; i < r; i++) for (long j = 0; j < c; j++) if ((g() % 10000) < d * 10000) m.e[{i, j}] = 1 + g() % 9;
    return m;
}
struct Mul { template<class T> T operator()(T a, T b) const { return a * b; } };
struct Add { template<class T> T operator()(T a, T b) const { return a + b; } };
