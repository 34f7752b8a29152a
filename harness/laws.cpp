// C26: algebraic (metamorphic) laws between masked products; no reference model is involved.
#include "kern.h"
using namespace gen; using namespace kern;
namespace pbt { const char *g_rule =
    "one case = generated operands, one algebraic law (mask and complement partition the product; mask union, restriction and composition; row, column and inner permutations; transposition; stacking of rows, columns and of the inner dimension; "
    "padding; identity; scaling; distributivity over the pattern; mask values ignored; agreement of algorithms) and, independently for every product the law mentions, a randomly chosen algorithm and thread count. "
    "Non-trivial: the product has an entry that sums at least two products, and the mask rejects at least one; distinct by the list of generator draws"; }
namespace kern { int g_nblockers = 1, g_blockwidth = 1; }
typedef std::vector<std::map<int64_t, uint64_t>> Res;
struct Lab { pbt::Tape &t; pbt::Ctx &ctx; std::string types; std::string trace; unsigned maxTh; bool isDouble;
    std::vector<const Kernel *> list(int mode, bool sorted) { std::vector<const Kernel *> r; for (auto &k : all()) if (types == k.types && k.mode == mode && k.group != OUTER && (sorted || !k.needsSorted)) r.push_back(&k); return r; }
    Res run(const HMat &A, const HMat &B, const HMat &M, int mode, int semi, const Kernel *k = nullptr) {
        Problem p; p.A = A; p.B = B; p.M = M; p.semi = semi; p.threads = maxTh == 1 ? 1 : 1 + (unsigned)t.draw(maxTh);
        bool sorted = A.sortedRows() && B.sortedRows() && M.sortedRows();
        if (!k) { auto l = list(mode, sorted); k = l[t.draw(l.size())]; }
        Args a; a.p = &p; a.keep = true; a.checkValues = false; a.checkOperands = false; Out o = k->run(a);
        trace += strf(" %s/%u", k->name, p.threads); if (!o.err.empty()) pbt::fail("%s: %s", k->name, o.err.c_str());
        Res r(A.r); for (int64_t i = 0; i < A.r; ++i) for (int64_t x = o.ptr[i]; x < o.ptr[i + 1]; ++x) r[i][o.col[x]] = isDouble && o.bits[x] == 0x8000000000000000ull ? 0 : o.bits[x];      // -0.0 is 0.0
        return r; }
    void same(const Res &a, const Res &b, const char *law) {
        PBT_CHECK(a.size() == b.size(), "%s: row counts differ [%s]", law, trace.c_str());
        for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) {
            for (auto &e : a[i]) { auto it = b[i].find(e.first); if (it == b[i].end()) pbt::fail("%s [%s]: entry (%zu,%ld) only on the left", law, trace.c_str(), i, (long)e.first);
                if (it->second != e.second) pbt::fail("%s [%s]: entry (%zu,%ld) has bits %lx on the left and %lx on the right", law, trace.c_str(), i, (long)e.first, (long)e.second, (long)it->second); }
            for (auto &e : b[i]) if (!a[i].count(e.first)) pbt::fail("%s [%s]: entry (%zu,%ld) only on the right", law, trace.c_str(), i, (long)e.first); } }
    Res merge(const Res &a, const Res &b, const char *law) { Res r = a; for (size_t i = 0; i < b.size(); ++i) for (auto &e : b[i]) { PBT_CHECK(!r[i].count(e.first), "%s [%s]: entry (%zu,%ld) in both parts", law, trace.c_str(), i, (long)e.first); r[i][e.first] = e.second; } return r; }
};
static HMat fromRows(int64_t r, int64_t c, const std::vector<std::vector<std::pair<int64_t, int64_t>>> &rows) { HMat m; m.r = r; m.c = c; for (auto &q : rows) { for (auto &e : q) { m.col.push_back(e.first); m.val.push_back(e.second); } m.ptr.push_back(m.nnz()); } return m; }
typedef std::vector<std::vector<std::pair<int64_t, int64_t>>> Rows;
static Rows rowsOf(const HMat &m) { Rows r(m.r); for (int64_t i = 0; i < m.r; ++i) for (int64_t k = m.ptr[i]; k < m.ptr[i + 1]; ++k) r[i].push_back({m.col[k], m.val[k]}); return r; }
static std::vector<int64_t> perm(Src &s, int64_t n) { std::vector<int64_t> p(n); std::iota(p.begin(), p.end(), 0); for (int64_t k = n; k > 1; --k) std::swap(p[k - 1], p[s.draw(k)]); return p; }
static HMat permute(const HMat &m, const std::vector<int64_t> *rp, const std::vector<int64_t> *cp, bool sort) { Rows a = rowsOf(m), b(m.r);   // row i goes to rp[i], column j to cp[j]
    for (int64_t i = 0; i < m.r; ++i) { auto &d = b[rp ? (*rp)[i] : i]; d = a[i]; if (cp) for (auto &e : d) e.first = (*cp)[e.first]; if (sort) std::sort(d.begin(), d.end()); } return fromRows(m.r, m.c, b); }
static HMat stack(const HMat &a, const HMat &b) { Rows x = rowsOf(a), y = rowsOf(b); x.insert(x.end(), y.begin(), y.end()); return fromRows(a.r + b.r, a.c, x); }
static HMat beside(const HMat &a, const HMat &b) { Rows x = rowsOf(a), y = rowsOf(b); for (int64_t i = 0; i < a.r; ++i) for (auto e : y[i]) x[i].push_back({e.first + a.c, e.second}); return fromRows(a.r, a.c + b.c, x); }
static HMat rowsPart(const HMat &a, int64_t lo, int64_t hi) { Rows x = rowsOf(a); return fromRows(hi - lo, a.c, Rows(x.begin() + lo, x.begin() + hi)); }
static HMat colsPart(const HMat &a, int64_t lo, int64_t hi) { Rows x = rowsOf(a), y(a.r); for (int64_t i = 0; i < a.r; ++i) for (auto e : x[i]) if (e.first >= lo && e.first < hi) y[i].push_back({e.first - lo, e.second}); return fromRows(a.r, hi - lo, y); }
static void split(Src &s, const HMat &m, HMat &a, HMat &b) { Rows x = rowsOf(m), p(m.r), q(m.r); unsigned n = s.range(1, 3); for (int64_t i = 0; i < m.r; ++i) for (auto e : x[i]) (s.chance(n, 4) ? p : q)[i].push_back(e); a = fromRows(m.r, m.c, p); b = fromRows(m.r, m.c, q); }
template<class NT> static uint64_t addBits(uint64_t x, uint64_t y, int semi) { NT a, b; memcpy(&a, &x, sizeof a); memcpy(&b, &y, sizeof b); NT c = gen::Add<NT>{semi}(a, b); uint64_t r = 0; c = c == 0 ? (NT)0 : c; memcpy(&r, &c, sizeof c); return r; }
template<class NT> static uint64_t castBits(int64_t v) { NT a = (NT)v; uint64_t r = 0; memcpy(&r, &a, sizeof a); return r; }
template<class NT> static uint64_t scaleBits(uint64_t x, int64_t s) { NT a; memcpy(&a, &x, sizeof a); NT c = gen::Mul<NT>{0}(a, (NT)s); uint64_t r = 0; c = c == 0 ? (NT)0 : c; memcpy(&r, &c, sizeof c); return r; }

template<class NT> static void laws(pbt::Tape &t, pbt::Ctx &ctx, const char *types) {
    ProblemOpts o; o.maxShape = 6; bool wantSorted = !t.chance(1, 4); if (wantSorted) o.unsortedA = o.unsortedB = o.unsortedM = false;
    int law = t.draw(17); Problem p = genProblem(t, o); Facts f = facts(p, 0); const HMat &A = p.A, &B = p.B, &M = p.M; int semi = p.semi == 7 ? 0 : p.semi;
    Lab L{t, ctx, types, "", t.chance(1, 3) ? 1u : 9u, std::is_floating_point<NT>::value}; pbt::RngSrc s(t.draw(0));
    static const char *names[] = {"mask + complement = product", "mask split", "mask restriction", "complement composition", "row permutation", "column permutation", "inner permutation", "transposition", "row stacking", "column stacking", "inner split", "identity on the left", "identity on the right", "scaling", "mask values ignored", "agreement", "padding"};
    const char *nm = names[law]; ctx.label(nm); ctx.label(types); ctx.note(strf("[%s] law: %s; ", types, nm) + describe(p));
    ctx.nontrivial = f.kept > 0 && f.maskedAway > 0 && f.collide > 0;
    bool sorted = f.sortedA && f.sortedB && f.sortedM;
    switch (law) {
    case 0: { Res u = L.run(A, B, M, 2, semi), m = L.run(A, B, M, 0, semi), c = L.run(A, B, M, 1, semi); L.same(L.merge(m, c, nm), u, nm); break; }
    case 1: { HMat m1, m2; split(s, M, m1, m2); Res a = L.run(A, B, m1, 0, semi), b = L.run(A, B, m2, 0, semi), m = L.run(A, B, M, 0, semi); L.same(L.merge(a, b, nm), m, nm); break; }
    case 2: { HMat m1, m2; split(s, M, m1, m2); Res a = L.run(A, B, m1, 0, semi), m = L.run(A, B, M, 0, semi), r(A.r); auto x = rowsOf(m1); for (int64_t i = 0; i < A.r; ++i) for (auto &e : x[i]) { auto it = m[i].find(e.first); if (it != m[i].end()) r[i][e.first] = it->second; } L.same(a, r, nm); break; }
    case 3: { HMat m1, m2; split(s, M, m1, m2); Res all_ = L.run(A, B, M, 1, semi), one = L.run(A, B, m1, 1, semi); auto x = rowsOf(m2); for (int64_t i = 0; i < A.r; ++i) for (auto &e : x[i]) one[i].erase(e.first); L.same(all_, one, nm); break; }
    case 4: { auto rp = perm(s, A.r); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), b = L.run(permute(A, &rp, nullptr, false), B, permute(M, &rp, nullptr, false), mode, semi), r(A.r); for (int64_t i = 0; i < A.r; ++i) r[rp[i]] = a[i]; L.same(r, b, nm); break; }
    case 5: { auto cp = perm(s, B.c); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), b = L.run(A, permute(B, nullptr, &cp, sorted), permute(M, nullptr, &cp, sorted), mode, semi), r(A.r); for (int64_t i = 0; i < A.r; ++i) for (auto &e : a[i]) r[i][cp[e.first]] = e.second; L.same(r, b, nm); break; }
    case 6: { auto kp = perm(s, A.c); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), b = L.run(permute(A, nullptr, &kp, sorted), permute(B, &kp, nullptr, false), M, mode, semi); L.same(a, b, nm); break; }
    case 7: { static const int dual[] = {0, 1, 2, 4, 3, 5, 6, 0}; if (semi == 6) semi = 0; int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), b = L.run(transpose(B), transpose(A), transpose(M), mode, dual[semi]), r(B.c); for (int64_t i = 0; i < A.r; ++i) for (auto &e : a[i]) r[e.first][i] = e.second; L.same(r, b, nm); break; }
    case 8: { if (A.r < 2) throw pbt::Discard{"one row"}; int64_t c = s.range(1, A.r - 1); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), x = L.run(rowsPart(A, 0, c), B, rowsPart(M, 0, c), mode, semi), y = L.run(rowsPart(A, c, A.r), B, rowsPart(M, c, A.r), mode, semi); x.insert(x.end(), y.begin(), y.end()); L.same(a, x, nm); break; }
    case 9: { if (B.c < 2) throw pbt::Discard{"one column"}; int64_t c = s.range(1, B.c - 1); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), x = L.run(A, colsPart(B, 0, c), colsPart(M, 0, c), mode, semi), y = L.run(A, colsPart(B, c, B.c), colsPart(M, c, B.c), mode, semi); for (int64_t i = 0; i < A.r; ++i) for (auto &e : y[i]) x[i][e.first + c] = e.second; L.same(a, x, nm); break; }
    case 10: { if (A.c < 2) throw pbt::Discard{"one inner index"}; int64_t c = s.range(1, A.c - 1); int mode = s.draw(2); Res a = L.run(A, B, M, mode, semi), x = L.run(colsPart(A, 0, c), rowsPart(B, 0, c), M, mode, semi), y = L.run(colsPart(A, c, A.c), rowsPart(B, c, A.c), M, mode, semi);
        for (int64_t i = 0; i < A.r; ++i) for (auto &e : y[i]) { auto it = x[i].find(e.first); if (it == x[i].end()) x[i][e.first] = e.second; else it->second = addBits<NT>(it->second, e.second, semi); } L.same(a, x, nm); break; }
    case 11: case 12: { const HMat &Z = law == 11 ? B : A; HMat I; int64_t n = law == 11 ? Z.r : Z.c; I.r = I.c = n; for (int64_t i = 0; i < n; ++i) { I.col.push_back(i); I.val.push_back(1); I.ptr.push_back(i + 1); }
        HMat m = genMask(t, law == 11 ? I : Z, law == 11 ? Z : I, 300 + Z.r, o.vs, o.unsortedM); int mode = s.draw(2); Res a = law == 11 ? L.run(I, Z, m, mode, 0) : L.run(Z, I, m, mode, 0), r(Z.r); auto z = rowsOf(Z), mm = rowsOf(m);
        for (int64_t i = 0; i < Z.r; ++i) { std::set<int64_t> in; for (auto &e : mm[i]) in.insert(e.first); for (auto &e : z[i]) if ((int)in.count(e.first) != mode) r[i][e.first] = castBits<NT>(e.second); } L.same(a, r, nm); break; }
    case 13: { HMat A2 = A, B2 = B; int64_t c = s.range(2, 5); bool left = s.draw(2); for (auto &v : (left ? A2 : B2).val) v *= c; int mode = s.draw(2); Res a = L.run(A, B, M, mode, 0), b = L.run(A2, B2, M, mode, 0); for (auto &row : a) for (auto &e : row) e.second = scaleBits<NT>(e.second, c); L.same(a, b, nm); break; }
    case 14: { HMat M2 = M; for (auto &v : M2.val) v = (int64_t)s.draw(3) - 1; int mode = s.draw(2); L.same(L.run(A, B, M, mode, semi), L.run(A, B, M2, mode, semi), nm); break; }
    case 15: { int mode = s.draw(3); auto l = L.list(mode, sorted); Res a = L.run(A, B, M, mode, semi, l[0]); for (size_t i = 1; i < l.size(); ++i) { L.trace.clear(); L.same(a, L.run(A, B, M, mode, semi, l[i]), nm); } break; }
    case 16: { int64_t er = s.range(0, 4), ek = s.range(0, 3), ec = s.range(0, 5); HMat A2 = A, B2 = B, M2 = M; A2.r += er; M2.r += er; for (int64_t i = 0; i < er; ++i) { A2.ptr.push_back(A2.nnz()); M2.ptr.push_back(M2.nnz()); } A2.c += ek; B2.r += ek; for (int64_t i = 0; i < ek; ++i) B2.ptr.push_back(B2.nnz()); B2.c += ec; M2.c += ec;
        int mode = s.draw(3); Res a = L.run(A, B, M, mode, semi), b = L.run(A2, B2, M2, mode, semi); a.resize(A2.r); L.same(a, b, nm); break; }
    } }
PBT_PROP(laws_u64, 1) { laws<uint64_t>(t, ctx, "int32_t/uint64_t"); }
PBT_PROP(laws_double, 1) { laws<double>(t, ctx, "int64_t/double"); }
