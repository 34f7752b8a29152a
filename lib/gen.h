// Host-side matrices, their generators, semirings and reference models.
// Nothing here includes or uses code of the repository under test.
#pragma once
#include <atomic>
#include "pbt.h"
#include <algorithm>
#include <map>
#include <numeric>
#include <set>

// a 12-byte value type that is not a number and knows when it was not made by its constructors
struct W12 { uint32_t lo, hi, seal; W12() = default; W12(uint64_t v) : lo((uint32_t)v), hi((uint32_t)(v >> 32)), seal(lo * 3 + hi * 5 + 0x5eed) {}
    operator uint64_t() const { if (seal != lo * 3 + hi * 5 + 0x5eed) pbt::fail("an operator or the result got a value that is no value (%08x %08x %08x)", lo, hi, seal); return (uint64_t)hi << 32 | lo; }
    bool operator==(const W12 &o) const { return (uint64_t)*this == (uint64_t)o; } };

namespace gen {
using pbt::Src; using pbt::Tape; using pbt::RngSrc; using pbt::strf;

// Row-compressed pattern with small value codes.
struct HMat {
    int64_t r = 0, c = 0;
    std::vector<int64_t> ptr{0}, col; std::vector<int64_t> val;
    int64_t nnz() const { return (int64_t)col.size(); }
    bool sortedRows() const { for (int64_t i = 0; i < r; ++i) for (int64_t k = ptr[i] + 1; k < ptr[i + 1]; ++k) if (col[k - 1] >= col[k]) return false; return true; }
    std::string str(size_t lim = 400) const {
        std::string s = strf("%ldx%ld{", (long)r, (long)c);
        for (int64_t i = 0; i < r; ++i) { if (ptr[i] == ptr[i + 1]) continue; s += strf("%ld:[", (long)i);
            for (int64_t k = ptr[i]; k < ptr[i + 1]; ++k) { s += strf("%s%ld=%ld", k == ptr[i] ? "" : " ", (long)col[k], (long)val[k]); if (s.size() > lim) return s + "...nnz=" + std::to_string(nnz()) + "}"; }
            s += "]"; }
        return s + "}"; }
};

inline HMat transpose(const HMat &a) {
    HMat t; t.r = a.c; t.c = a.r; t.ptr.assign(t.r + 1, 0); t.col.resize(a.nnz()); t.val.resize(a.nnz());
    for (auto c : a.col) t.ptr[c + 1]++;
    for (int64_t i = 0; i < t.r; ++i) t.ptr[i + 1] += t.ptr[i];
    std::vector<int64_t> pos(t.ptr.begin(), t.ptr.end() - 1);
    for (int64_t i = 0; i < a.r; ++i) for (int64_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) { int64_t p = pos[a.col[k]]++; t.col[p] = i; t.val[p] = a.val[k]; }
    return t; }

inline HMat sortedCopy(HMat a) {
    std::vector<std::pair<int64_t, int64_t>> row;
    for (int64_t i = 0; i < a.r; ++i) { row.clear(); for (int64_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) row.push_back({a.col[k], a.val[k]});
        std::sort(row.begin(), row.end()); for (size_t k = 0; k < row.size(); ++k) { a.col[a.ptr[i] + k] = row[k].first; a.val[a.ptr[i] + k] = row[k].second; } }
    return a; }

struct ValSpec { int64_t lo = -8, hi = 8; };      // value codes

// n distinct columns out of [0,c), appended in increasing order unless shuffled
struct RowShape { int kind; };

inline void genRowCols(Src &s, int64_t c, int64_t n, int style, std::vector<int64_t> &out) {
    out.clear(); if (n <= 0 || c <= 0) return; if (n > c) n = c;
    if (n == c) { for (int64_t j = 0; j < c; ++j) out.push_back(j); return; }
    switch (style) {
    case 1: { int64_t b = s.range(0, c - n); for (int64_t j = 0; j < n; ++j) out.push_back(b + j); return; }            // band
    case 2: { for (int64_t j = 0; j < n; ++j) out.push_back(c - n + j); return; }                                         // last columns
    case 3: { int64_t maxStride = std::max<int64_t>(1, (c - 1) / std::max<int64_t>(1, n)); int lg = 0; while ((2ll << lg) <= maxStride) ++lg;  // power-of-two stride
        int64_t st = 1ll << s.range(0, lg); int64_t room = c - 1 - (n - 1) * st; if (room < 0) { st = 1; room = c - n; } int64_t b = s.range(0, std::min<int64_t>(room, st));
        for (int64_t j = 0; j < n; ++j) out.push_back(b + j * st); return; }
    case 4: { for (int64_t j = 0; j < n; ++j) out.push_back(j); return; }                                                 // first columns
    default: break;
    }
    if (n * 3 >= c) {       // dense: selection sampling
        int64_t need = n; for (int64_t j = 0; j < c && need > 0; ++j) if ((int64_t)s.draw(c - j) < need) { out.push_back(j); --need; }
        return; }
    for (int64_t k = 0; k < n; ++k) out.push_back(s.draw(c));
    std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
}

inline int64_t genVal(Src &s, const ValSpec &v) {     // 0 -> value 1 (simplest), explicit zeros possible
    int64_t d = s.draw(v.hi - v.lo + 1); int64_t x = 1 + d; if (x > v.hi) x = v.lo + (x - v.hi - 1); return x; }

// dimension styles
inline int64_t dictDim(Src &s, int64_t maxv) {
    const auto &d = pbt::dictionary(); int64_t x = d[s.draw(d.size())] + s.range(0, 2) - 1; if (x < 1) x = 1; return x > maxv ? maxv : x; }
inline int64_t pow2Dim(Src &s, int64_t maxv) { int lg = 0; while ((2ll << lg) <= maxv) ++lg; int64_t x = (1ll << s.range(0, lg)) + s.range(0, 2) - 1; return std::max<int64_t>(1, std::min(x, maxv)); }

inline int64_t genDim(Src &s, int64_t maxv) {
    switch (s.weighted({5, 3, 1, 1})) { case 0: return s.range(1, std::min<int64_t>(6, maxv)); case 1: return s.range(1, maxv); case 2: return pow2Dim(s, maxv); default: return dictDim(s, maxv); } }

inline HMat genMat(Tape &t, int64_t r, int64_t c, int64_t nnzBudget, const ValSpec &vs, bool allowUnsorted) {
    HMat m; m.r = r; m.c = c; m.ptr.assign(1, 0);
    int fill = t.weighted({6, 3, 3, 2, 2, 1, 1, 1});   // 0 sparse,1 medium,2 mixed rows,3 power law,4 dense-ish,5 full,6 empty,7 one heavy row
    int style = t.weighted({6, 2, 1, 2, 1, 3});        // 5: per-row choice
    bool unsorted = allowUnsorted && t.chance(1, 3);
    bool small = r * std::min<int64_t>(c, 12) <= 260;
    RngSrc big(small ? 0 : t.draw(0)); Src &s = small ? (Src &)t : (Src &)big;
    int64_t heavy = fill == 7 ? s.range(0, r - 1) : -1; int64_t left = nnzBudget;
    // more rows than entries: spread the entries over all rows (or leave them to the first ones)
    uint64_t thin = r > nnzBudget && s.draw(4) ? (uint64_t)(3 * r / std::max<int64_t>(1, nnzBudget)) : 0;
    std::vector<int64_t> row;
    for (int64_t i = 0; i < r; ++i) {
        int64_t n = 0; int64_t avg = std::max<int64_t>(1, std::min<int64_t>(c, nnzBudget / std::max<int64_t>(1, r)));
        switch (fill) {
        case 0: n = s.range(0, std::min<int64_t>(c, 3)); break;
        case 1: n = s.range(0, std::min<int64_t>(c, std::max<int64_t>(3, avg))); break;
        case 2: n = s.chance(1, 2) ? 0 : (s.chance(1, 4) ? s.range(0, c) : s.range(0, std::min<int64_t>(c, 8))); break;
        case 3: { int64_t z = s.range(0, 15); n = s.range(0, std::min<int64_t>(c, z == 15 ? c : z == 14 ? 64 : z > 11 ? 12 : 2)); break; }
        case 4: n = c - s.range(0, std::min<int64_t>(c, c / 2)); break;
        case 5: n = c; break;
        case 6: n = 0; break;
        case 7: n = i == heavy ? c : (s.chance(1, 8) ? 1 : 0); break;
        }
        if (thin && i != heavy && i + 1 != r && s.draw(thin)) n = 0;
        if (n > left) n = left;
        genRowCols(s, c, n, style == 5 ? s.weighted({4, 2, 1, 2, 1}) : style, row);
        left -= (int64_t)row.size();
        if (unsorted && row.size() > 1) for (size_t k = row.size(); k > 1; --k) std::swap(row[k - 1], row[k - 1 - s.draw(k)]);
        for (int64_t x : row) { m.col.push_back(x); m.val.push_back(genVal(s, vs)); }
        m.ptr.push_back(m.nnz());
    }
    return m; }

// pattern of A*B (columns per row, sorted)
inline std::vector<std::vector<int64_t>> productPattern(const HMat &a, const HMat &b) {
    std::vector<std::vector<int64_t>> p(a.r); std::vector<int64_t> mark(b.c, -1);
    for (int64_t i = 0; i < a.r; ++i) { for (int64_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) for (int64_t l = b.ptr[a.col[k]]; l < b.ptr[a.col[k] + 1]; ++l) if (mark[b.col[l]] != i) { mark[b.col[l]] = i; p[i].push_back(b.col[l]); }
        std::sort(p[i].begin(), p[i].end()); }
    return p; }

inline HMat fromPattern(Src &s, int64_t r, int64_t c, const std::vector<std::vector<int64_t>> &p, const ValSpec &vs) {
    HMat m; m.r = r; m.c = c; for (int64_t i = 0; i < r; ++i) { for (int64_t x : p[i]) { m.col.push_back(x); m.val.push_back(genVal(s, vs)); } m.ptr.push_back(m.nnz()); } return m; }

inline void shuffleRows(Src &s, HMat &m) { for (int64_t i = 0; i < m.r; ++i) for (int64_t n = m.ptr[i + 1] - m.ptr[i]; n > 1; --n) { int64_t a = m.ptr[i] + n - 1, b = a - (int64_t)s.draw(n); std::swap(m.col[a], m.col[b]); std::swap(m.val[a], m.val[b]); } }

// mask related to the product
inline HMat genMask(Tape &t, const HMat &a, const HMat &b, int64_t budget, const ValSpec &vs, bool allowUnsorted) {
    int kind = t.weighted({4, 3, 2, 1, 1, 1, 1});
    if (kind == 0) return genMat(t, a.r, b.c, budget, vs, allowUnsorted);
    bool unsorted = allowUnsorted && t.chance(1, 3);
    RngSrc s(t.draw(0)); HMat m;
    auto p = productPattern(a, b); std::vector<std::vector<int64_t>> q(a.r);
    switch (kind) {
    case 1: for (int64_t i = 0; i < a.r; ++i) for (auto x : p[i]) if (s.chance(1, 2)) q[i].push_back(x); break;        // subset of the product
    case 2: { unsigned den = s.range(1, 6); for (int64_t i = 0; i < a.r; ++i) { std::set<int64_t> z; for (auto x : p[i]) if (!s.chance(1, den)) z.insert(x); int64_t extra = s.range(0, 3); while (extra-- > 0) z.insert(s.draw(b.c)); q[i].assign(z.begin(), z.end()); } break; } // mixed
    case 3: q = p; break;                                                                                              // exactly the product
    case 4: for (int64_t i = 0; i < a.r; ++i) { size_t k = 0; int64_t n = 0; for (int64_t x = 0; x < b.c && n < 64; ++x) { while (k < p[i].size() && p[i][k] < x) ++k; if (k >= p[i].size() || p[i][k] != x) { q[i].push_back(x); ++n; } } } break;  // disjoint from the product
    case 5: for (int64_t i = 0; i < a.r; ++i) if (s.chance(1, 2)) for (int64_t x = 0; x < std::min<int64_t>(b.c, std::max<int64_t>(1, budget / std::max<int64_t>(1, a.r))); ++x) q[i].push_back(x); break; // full or empty rows
    case 6: for (int64_t i = 0; i < a.r; ++i) { if (p[i].empty()) continue; int z = s.range(0, 3); if (z == 0) q[i] = {p[i].front()}; else if (z == 1) q[i] = {p[i].back()}; else if (z == 2) { q[i] = {p[i].front()}; if (p[i].back() != p[i].front()) q[i].push_back(p[i].back()); } } break; // extremes
    }
    m = fromPattern(s, a.r, b.c, q, vs); if (unsorted) shuffleRows(s, m); return m; }

struct Problem { HMat A, B, M; int semi = 0; unsigned threads = 1; bool sameAB = false, sameAM = false; int shape = 0; };

struct ProblemOpts { bool unsortedA = true, unsortedB = true, unsortedM = true; ValSpec vs; int maxShape = 9; bool aliasPatterns = true; int nsemi = 8; bool manyThreads = true; bool small = false; };

inline unsigned genThreads(Tape &t, int64_t rows) {
    switch (t.weighted({40, 40, 20, 10, 10, rows < 5000 ? 1 : 0})) { case 5: return 37 + (unsigned)t.draw(rows < 400 ? 240 : 40); case 0: return 1; case 1: return 2 + t.draw(4); case 2: return 6 + t.draw(11); case 3: return (unsigned)std::min<int64_t>(rows + 1 + t.draw(3), 24); default: return 17 + t.draw(20); } }

// more than 2^16 entries in one row of B, of the mask and of the product (wide), or more than 2^16 rows (tall)
inline Problem genLong(Tape &t, const ProblemOpts &o, bool wide) {
    Problem p; p.shape = wide ? 8 : 9; int64_t n = 65534 + t.draw(5000), k = t.range(1, 4), m = wide ? t.range(1, 3) : n, c = wide ? n : t.range(1, 4); unsigned dens[3] = {(unsigned)t.draw(3), (unsigned)t.draw(3), (unsigned)t.draw(4)};
    bool shuffle = o.unsortedA && o.unsortedB && o.unsortedM && t.chance(1, 3); p.semi = t.draw(o.nsemi); p.threads = t.chance(1, 2) ? 1 : 2 + t.draw(9); RngSrc s(t.draw(0));
    auto fill = [&](int64_t r, int64_t cc, unsigned d) { HMat x; x.r = r; x.c = cc; for (int64_t i = 0; i < r; ++i) { for (int64_t j = 0; j < cc; ++j) if (d == 0 || s.draw(d == 1 ? 50 : 400) >= (d == 1 ? 1u : d == 2 ? 200u : 390u)) { x.col.push_back(j); x.val.push_back(genVal(s, o.vs)); } x.ptr.push_back(x.nnz()); } if (shuffle) shuffleRows(s, x); return x; };
    p.A = fill(m, k, dens[0]); p.B = fill(k, c, dens[1]); p.M = fill(m, c, dens[2]); return p; }

// rows whose many columns all fall on the same slots of any table addressed by low bits of the column: multiples of a power of two, plus a few strays
inline Problem genAligned(Tape &t, const ProblemOpts &o) {
    Problem p; p.shape = 10; int64_t n = t.range(3 << 16, 1 << 18), k = t.range(1, 4), m = t.range(1, 4); unsigned keys = 20 + t.draw(t.chance(1, 2) ? 230 : 60); int lg = 6 + t.draw(6); while (((int64_t)keys << lg) > n) --keys;
    bool shuffle = o.unsortedA && o.unsortedB && o.unsortedM && t.chance(1, 3); p.semi = t.draw(o.nsemi); p.threads = t.chance(1, 2) ? 1 : 2 + t.draw(5); RngSrc s(t.draw(0)); int64_t base = s.draw(std::min<int64_t>(64, n - (((int64_t)keys - 1) << lg)));
    auto fill = [&](int64_t r, unsigned d) { HMat x; x.r = r; x.c = n; for (int64_t i = 0; i < r; ++i) { std::set<int64_t> z; for (unsigned j = 0; j < keys; ++j) if (s.draw(8) >= d) z.insert(base + ((int64_t)j << lg)); for (int e = s.range(0, 3); e > 0; --e) z.insert(s.draw(n)); for (int64_t j : z) { x.col.push_back(j); x.val.push_back(genVal(s, o.vs)); } x.ptr.push_back(x.nnz()); } if (shuffle) shuffleRows(s, x); return x; };
    p.A = genMat(t, m, k, m * k, o.vs, o.unsortedA); p.B = fill(k, t.draw(6)); p.M = fill(m, t.draw(6)); return p; }

// dimensions beyond 2^20, few entries: drawn from small pools of rows, inner indices and columns that reach the ends and surround powers of two
inline Problem genHuge(Tape &t, const ProblemOpts &o) {
    Problem p; p.shape = 11; int which = t.weighted({3, 3, 3, 1, 1, 1}); bool hm = which == 0 || which == 3 || which == 4, hk = which == 1 || which == 3 || which == 5, hn = which == 2 || which == 4 || which == 5;
    auto dim = [&](bool huge) { return huge ? (int64_t)(1 << 20) + t.range(1, t.chance(1, 3) ? 1200000 : 50) : t.range(1, 400); }; int64_t m = dim(hm), k = dim(hk), n = dim(hn);
    bool shuffle = o.unsortedA && o.unsortedB && o.unsortedM && t.chance(1, 3); p.semi = t.draw(o.nsemi); p.threads = t.chance(1, 3) ? 1 : 2 + t.draw(7); int da = t.range(1, 20), db = t.range(1, 20), dm = t.range(1, 20); RngSrc s(t.draw(0));
    auto pool = [&](int64_t d) { std::set<int64_t> z{0, d - 1, d / 2}; for (int64_t b : {65535, 65536, 65537, 1048575, 1048576, 1048577}) if (b < d && s.chance(2, 3)) z.insert(b); int64_t at = s.draw(d); for (int i = 0; i < 12; ++i) { z.insert(s.draw(d)); if (at + i < d) z.insert(at + i); } return std::vector<int64_t>(z.begin(), z.end()); };
    auto pm = pool(m), pk = pool(k), pn = pool(n);
    auto fill = [&](const std::vector<int64_t> &pr, const std::vector<int64_t> &pc, int64_t r, int64_t c, int d) { HMat x; x.r = r; x.c = c; size_t at = 0; x.ptr.reserve(r + 1); for (int64_t i = 0; i < r; ++i) { if (at < pr.size() && pr[at] == i) { ++at; for (int64_t j : pc) if ((int)s.draw(20) < d) { x.col.push_back(j); x.val.push_back(genVal(s, o.vs)); } } x.ptr.push_back(x.nnz()); } if (shuffle) shuffleRows(s, x); return x; };
    p.A = fill(pm, pk, m, k, da); p.B = fill(pk, pn, k, n, db); p.M = fill(pm, pn, m, n, dm); return p; }

inline Problem genProblem(Tape &t, const ProblemOpts &o) {
    Problem p; int64_t m, k, n, budget;
    // 0 tiny, 1 small, 2 medium, 3 wide (many columns), 4 tall, 5 long rows, 6 dictionary/pow2 dims, 7 large
    int shape = o.small ? t.weighted({6, 8, 2, 1, 1, 1, 1}) : t.weighted({150, 150, 75, 50, 50, 50, 50, o.maxShape >= 7 ? 25 : 0, o.maxShape >= 8 ? 1 : 0, o.maxShape >= 8 ? 1 : 0, o.maxShape >= 8 ? 8 : 0, o.maxShape >= 8 ? 1 : 0}); p.shape = shape;
    if (shape == 11) return genHuge(t, o);
    if (shape == 10) return genAligned(t, o);
    if (shape >= 8) return genLong(t, o, shape == 8);
    switch (shape) {
    case 0: m = t.range(1, 5); k = t.range(1, 5); n = t.range(1, 5); budget = 20; break;
    case 1: m = t.range(1, 30); k = t.range(1, 30); n = t.range(1, 40); budget = 300; break;
    case 2: m = t.range(1, 200); k = t.range(1, 200); n = t.range(1, 300); budget = 2500; break;
    case 3: m = t.range(1, 8); k = t.range(1, 30); n = t.chance(1, 4) ? (t.chance(1, 3) ? 65535 + (int64_t)t.draw(3) : genDim(t, 140000)) : t.range(200, 70000); budget = 1500; break;
    case 4: m = t.range(200, 3000); k = t.range(1, 60); n = t.range(1, 60); budget = 4000; break;
    case 5: m = t.range(1, 4); k = t.range(1, 12); n = t.range(200, 5000); budget = 9000; break;
    case 6: m = genDim(t, 300); k = genDim(t, 300); n = genDim(t, 5000); budget = 2500; break;
    default: m = t.range(1, 2000); k = t.range(1, 2000); n = t.range(1, 2000); budget = 20000; break;
    }
    if (o.small) { budget = std::min<int64_t>(budget, 600); m = std::min<int64_t>(m, 400); }
    int rel = o.aliasPatterns ? t.weighted({5, 1, 1, 1}) : 0;   // 1: square A=B, 2: A=M, 3: A=B=M
    if (rel) { if (rel == 2) k = n; else { if (shape == 3 || shape == 5) m = k = n = std::min<int64_t>(n, 400); else m = k = n; } }
    p.A = genMat(t, m, k, budget, o.vs, o.unsortedA && (rel != 3 || (o.unsortedB && o.unsortedM)) && (rel != 1 || o.unsortedB) && (rel != 2 || o.unsortedM));
    if (rel == 1 || rel == 3) { p.B = p.A; p.sameAB = true; } else p.B = genMat(t, k, n, budget, o.vs, o.unsortedB);
    if (rel == 2 || rel == 3) { p.M = p.A; p.sameAM = true; } else p.M = genMask(t, p.A, p.B, budget, o.vs, o.unsortedM);
    p.semi = t.draw(o.nsemi); p.threads = genThreads(t, m);
    return p; }

// ---- semirings: one functor type, dispatched at run time ----
template<class NT> inline NT wrapCast(uint64_t x) { if constexpr (std::is_floating_point<NT>::value) return (NT)(int64_t)x; else return (NT)x; }
#ifdef COUNT_OPS        // only in binaries that count the calls of the user's operators
inline std::atomic<int64_t> g_muls{0}, g_adds{0};
#define COUNT_CALL(x) (x).fetch_add(1, std::memory_order_relaxed)
#else
#define COUNT_CALL(x)
#endif
template<class NT> struct Mul { int k;
    NT operator()(const NT &a, const NT &b) const { COUNT_CALL(g_muls);
        switch (k) {
        case 0: case 7: if constexpr (std::is_floating_point<NT>::value) return a * b; else return (NT)((uint64_t)a * (uint64_t)b);
        case 1: if constexpr (std::is_floating_point<NT>::value) return a + b; else return (NT)((uint64_t)a + (uint64_t)b);
        case 2: if constexpr (std::is_floating_point<NT>::value) return a * b; else return (NT)((uint64_t)a * (uint64_t)b);
        case 3: return b; case 4: return a; case 5: return (NT)1;
        default: { uint64_t x, y; if constexpr (std::is_floating_point<NT>::value) { x = (uint64_t)(int64_t)a; y = (uint64_t)(int64_t)b; } else { x = (uint64_t)a; y = (uint64_t)b; }
            uint64_t h = pbt::mix64(x * 3 + pbt::mix64(y + 7)); if constexpr (std::is_floating_point<NT>::value) return (NT)(h % 251); else return (NT)h; }
        } } };
template<class NT> struct Add { int k;
    NT operator()(const NT &a, const NT &b) const { COUNT_CALL(g_adds);
        switch (k) { case 1: return a < b ? a : b; case 2: return a < b ? b : a;
        case 7: return (a != (NT)0 || b != (NT)0) ? (NT)1 : (NT)0;      // "or": not the identity on single products
        default: if constexpr (std::is_floating_point<NT>::value) return a + b; else return (NT)((uint64_t)a + (uint64_t)b); } } };
// kind 7 keeps the raw product when a sum has one term, 0/1 otherwise: tells "first product stored as is" from "added to something"
inline const char *semiName(int k) { static const char *n[] = {"plus-times", "min-plus", "max-times", "plus-second", "plus-first", "plus-pair", "plus-hash", "or-times"}; return n[k]; }

template<class NT> struct RefRow { std::vector<int64_t> col; std::vector<NT> val; };

// Reference: for every row, (column -> sum over k of mul(A[i,k],B[k,j])) for the positions selected by the mask.
// mode 0: mask, 1: complemented mask, 2: no mask
template<class NT> std::vector<std::map<int64_t, NT>> reference(const HMat &A, const HMat &B, const HMat *M, int mode, int semi) {
    Mul<NT> mul{semi}; Add<NT> add{semi}; std::vector<std::map<int64_t, NT>> R(A.r);
    std::vector<int64_t> inMask(B.c, -1), touched(B.c, -1); std::vector<NT> acc(B.c);
    for (int64_t i = 0; i < A.r; ++i) {
        if (mode != 2) for (int64_t k = M->ptr[i]; k < M->ptr[i + 1]; ++k) inMask[M->col[k]] = i;
        std::vector<int64_t> cols;
        for (int64_t k = A.ptr[i]; k < A.ptr[i + 1]; ++k) for (int64_t l = B.ptr[A.col[k]]; l < B.ptr[A.col[k] + 1]; ++l) {
            int64_t j = B.col[l]; if (mode != 2 && ((inMask[j] == i) == (mode == 1))) continue;
            NT v = mul((NT)A.val[k], (NT)B.val[l]);
            if (touched[j] != i) { touched[j] = i; acc[j] = v; cols.push_back(j); } else acc[j] = add(acc[j], v); }
        for (int64_t j : cols) R[i][j] = acc[j]; }
    return R; }

inline std::string describe(const Problem &p) { return strf("%s threads=%u A=", semiName(p.semi), p.threads) + p.A.str(160) + " B=" + (p.sameAB ? "A" : p.B.str(160)) + " M=" + (p.sameAM ? "A" : p.M.str(160)); }
} // namespace gen
