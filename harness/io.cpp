// C18: matrix files against the entries written into them.
#include <numeric>
#include <cstring>
#include <cassert>
#include <tuple>
#include "CSR.h"
#include "CSC.h"
#include "IO.h"
#include "kern.h"
#include "kern_impl.h"
#include "quiet.h"
using namespace gen; using namespace pbt;
namespace pbt { const char *g_rule = "one case = one generated matrix file and the readers that accept it: coordinate text (general or symmetric; with and without comment lines, long ones and ones that mention other symmetries; one or several blanks between words, blank lines, carriage returns; entries in any order; pattern, integer and real values in fixed and exponent notation; with and without a final newline; up to some thousand entries, rectangular, empty) through ReadASCII, "
    "ReadASCII_Triples (dropping the diagonal, random values), CSR(filename) and read_grb_mtx (symmetrising), or the binary format through ReadBinary (also truncated, empty and missing files); what is read is compared entry by entry with what was written. Non-trivial: at least two entries in two rows and columns; distinct by the list of generator draws"; }
struct E3 { int64_t r, c; double v; };
struct File { int64_t m, n; bool loose = false, sym, banner, pattern; std::vector<E3> e; std::string text; int style; };
static std::string path() { static std::string p = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/m" + std::to_string(getpid()); return p; }
static void put(const std::string &s) { FILE *f = fopen(path().c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { fprintf(stderr, "cannot write the case file\n"); exit(3); } fclose(f); }
static std::string num(Src &s, double &v, bool integral) {   // text of a value and the value it denotes
    char b[64]; if (integral) { int64_t x; switch (s.weighted({5, 2, 1})) { case 0: x = s.range(1, 9); break; case 1: x = s.range(0, 2000) - 1000; break; default: x = s.range(-2147483647, 2147483647); } v = (double)x; int how = s.weighted({6, 1, 1}); if (how == 0) snprintf(b, sizeof b, "%lld", (long long)x); else if (how == 1) snprintf(b, sizeof b, "%lld.0", (long long)x); else snprintf(b, sizeof b, "%.17e", v); }
    else { int64_t x = s.range(0, 4000) - 2000; v = (double)x / 16.0; switch (s.weighted({3, 1, 1, 1})) { case 0: snprintf(b, sizeof b, "%.4f", v); break; case 1: snprintf(b, sizeof b, "%.10e", v); break; case 2: v = std::ldexp(v, (int)s.range(-30, 30)); snprintf(b, sizeof b, "%.17g", v); break; default: snprintf(b, sizeof b, "%g", v); v = atof(b); } }
    return b; }
static File make(Tape &t, bool mustBanner, bool integral, bool positive, bool square = false) {
    File f; f.sym = t.chance(1, 3); f.banner = mustBanner || f.sym || t.chance(2, 3); HMat m; int64_t r, c, bud = 200; bool far = false; switch (t.weighted({50, 40, 10, 2, 1})) { case 0: r = t.range(1, 6); c = t.range(1, 6); break; case 1: r = t.range(1, 40); c = t.range(1, 40); break; case 2: r = t.range(1, 100000); c = t.range(1, 3000); if (r > 2000) c = t.range(1, 4); bud = 2500; break;
    case 3: far = true; r = t.chance(1, 2) ? 65500 + t.draw(t.chance(1, 4) ? 1500000 : 60000) : 1 + t.draw(30); c = t.chance(1, 2) || r < 50 ? 65500 + t.draw(t.chance(1, 3) ? 1200000 : 60000) : 1 + t.draw(3000); bud = 1500; break; default: far = true; r = 100 + t.draw(t.chance(1, 3) ? 70000 : 1000); c = 100 + t.draw(1000); bud = t.chance(1, 3) ? 250000 : 70000; }
    if (f.sym || square) { r = far ? std::min<int64_t>(std::max(r, c), 140000) : std::min<int64_t>(std::max(r, c), 500); c = r; } m = genMat(t, r, c, bud, ValSpec{1, 1}, false); f.m = r; f.n = c; for (int64_t i = 0; i < r; ++i) for (int64_t k = m.ptr[i]; k < m.ptr[i + 1]; ++k) if (!f.sym || m.col[k] <= i) f.e.push_back({i, m.col[k], 1});
    bool upper = f.sym && t.chance(1, 6); RngSrc rs(t.draw(0)); if (upper) for (auto &e : f.e) if (rs.chance(1, 2)) std::swap(e.r, e.c);    // either triangle
    if (t.chance(1, 2)) for (size_t k = f.e.size(); k > 1; --k) std::swap(f.e[k - 1], f.e[rs.draw(k)]); f.pattern = t.chance(1, 4); std::string &s = f.text;
    if (f.banner) s += std::string("%%MatrixMarket matrix coordinate ") + (f.pattern ? "pattern " : integral ? "integer " : "real ") + (f.sym ? "symmetric\n" : "general\n"); int nc = f.banner ? t.weighted({3, 1, 1, 1}) : 0; bool loose = t.chance(1, 3);       // loose: any blanks between words, blank lines, carriage returns
    for (int i = 0; i < nc; ++i) { std::string line = "%"; int64_t n = t.draw(t.chance(1, 6) ? 900 : 80); for (int64_t k = 0; k < n; ++k) line += " abc1234%5.-xyz"[t.draw(15)]; if (t.chance(1, 8)) line.insert(1 + t.draw(line.size()), t.chance(1, 2) ? " symmetric " : " general "); s += line + "\n"; }
    char b[128]; bool small = f.e.size() <= 40; Src &vs = small ? (Src &)t : (Src &)rs; const char *eol = loose && t.chance(1, 2) ? "\r\n" : "\n";
    auto gap = [&](bool some) { if (!loose) return std::string(some ? " " : ""); std::string g; for (int n = (vs.chance(1, 80) ? (int)vs.draw(vs.chance(1, 4) ? 600 : 60) : vs.weighted({6, 2, 1})) + some; n > 0; --n) g += vs.chance(1, 6) ? '\t' : ' '; return g; }; auto blank = [&] { if (loose && vs.chance(1, 8)) s += gap(false) + eol; };
    blank(); snprintf(b, sizeof b, "%lld", (long long)f.m); s += gap(false) + b; snprintf(b, sizeof b, "%lld", (long long)f.n); s += gap(true) + b; snprintf(b, sizeof b, "%zu", f.e.size()); s += gap(true) + b + gap(false);
    for (auto &e : f.e) { s += eol; blank(); snprintf(b, sizeof b, "%lld", (long long)e.r + 1); s += gap(false) + b; snprintf(b, sizeof b, "%lld", (long long)e.c + 1); s += gap(true) + b; if (!f.pattern) { double v; std::string x = num(vs, v, integral); if (positive && v < 0) { v = -v; x = x.substr(1); } e.v = v; s += gap(true) + (loose && x[0] != '-' && vs.chance(1, 12) ? "+" : "") + x; } s += gap(false); } if (!t.chance(1, 8)) { s += eol; if (loose) while (vs.chance(1, 3)) s += gap(false) + eol; } f.loose = loose; return f; }
typedef std::map<std::pair<int64_t, int64_t>, double> Ents;
static Ents full(const File &f, bool noDiag = false) { Ents o; for (auto &e : f.e) { if (noDiag && e.r == e.c) continue; o[{e.r, e.c}] = e.v; if (f.sym && e.r != e.c) o[{e.c, e.r}] = e.v; } return o; }
template<class NT> static bool sameVal(NT g, double w) { return g == (NT)w; }
template<class IT, class NT> static void cmpList(const char *w, const Ents &want, const std::vector<std::tuple<int64_t, int64_t, NT>> &got) {
    std::set<std::pair<int64_t, int64_t>> seen; for (auto &x : got) { auto k = std::make_pair(std::get<0>(x), std::get<1>(x)); auto it = want.find(k); PBT_CHECK(it != want.end(), "%s: read entry (%ld,%ld), which is not in the file", w, (long)k.first, (long)k.second); PBT_CHECK(seen.insert(k).second, "%s: entry (%ld,%ld) read twice", w, (long)k.first, (long)k.second); PBT_CHECK(sameVal(std::get<2>(x), it->second), "%s: entry (%ld,%ld) read as %s, the file says %.17g", w, (long)k.first, (long)k.second, kernimpl::vstr(std::get<2>(x)).c_str(), it->second); }
    PBT_CHECK(got.size() == want.size(), "%s: read %zu of %zu entries", w, got.size(), want.size()); }
template<class IT, class NT> static std::vector<std::tuple<int64_t, int64_t, NT>> list(const CSC<IT, NT> &c, const char *w, int64_t m, int64_t n) { PBT_CHECK((int64_t)c.rows == m && (int64_t)c.cols == n, "%s: read a %lld x %lld matrix, the file says %ld x %ld", w, (long long)c.rows, (long long)c.cols, (long)m, (long)n); PBT_CHECK(c.colptr && c.colptr[0] == 0 && c.colptr[n] == c.nnz, "%s: column offsets do not span the %lld entries", w, (long long)c.nnz); std::vector<std::tuple<int64_t, int64_t, NT>> o; for (int64_t j = 0; j < n; ++j) { PBT_CHECK(c.colptr[j] <= c.colptr[j + 1], "%s: column offsets decrease", w); for (IT k = c.colptr[j]; k < c.colptr[j + 1]; ++k) o.push_back({(int64_t)c.rowids[k], j, c.values[k]}); } return o; }
static void count(Ctx &ctx, const File &f) { std::set<int64_t> r, c; for (auto &e : f.e) { r.insert(e.r); c.insert(e.c); } ctx.nontrivial = r.size() > 1 && c.size() > 1; ctx.label(f.sym ? "symmetric" : "general"); ctx.label(f.pattern ? "pattern" : "values"); if (f.loose) ctx.label("loose layout"); ctx.note(f.text.substr(0, 500)); }

template<class IT, class NT> static void ascii(Tape &t, Ctx &ctx) {
    bool integral = std::is_integral<NT>::value; File f = make(t, false, integral, std::is_unsigned<NT>::value); count(ctx, f); put(f.text); Quiet q;
    { CSC<IT, NT> c; int rc = ReadASCII(path(), c); PBT_CHECK(rc == 1, "ReadASCII returned %d", rc); cmpList<IT, NT>("ReadASCII", full(f), list(c, "ReadASCII", f.m, f.n)); }
    bool nd = t.chance(1, 2), rnd = t.chance(1, 3); IT nr = 0, nc = 0, nv = 0, *r = nullptr, *c = nullptr; NT *v = nullptr; int rc = ReadASCII_Triples<IT, NT>(path(), nr, nc, nv, r, c, v, nd, rnd); PBT_CHECK(rc == 1 && (int64_t)nr == f.m && (int64_t)nc == f.n, "ReadASCII_Triples: returned %d, %lld x %lld", rc, (long long)nr, (long long)nc); Ents w = full(f, nd); std::vector<std::tuple<int64_t, int64_t, NT>> got; std::map<std::pair<int64_t, int64_t>, NT> gv;
    PBT_CHECK((size_t)nv == w.size(), "ReadASCII_Triples (%s): %lld entries, expected %zu", nd ? "without diagonal" : "all", (long long)nv, w.size()); for (IT k = 0; k < nv; ++k) { got.push_back({(int64_t)r[k], (int64_t)c[k], v[k]}); gv[{(int64_t)r[k], (int64_t)c[k]}] = v[k]; }
    if (rnd) { for (auto &x : got) { auto k = std::make_pair(std::get<0>(x), std::get<1>(x)); NT val = std::get<2>(x); PBT_CHECK(val >= (NT)7 && val <= (NT)16, "ReadASCII_Triples: random value %s", kernimpl::vstr(val).c_str()); if (f.sym) { auto it = gv.find({k.second, k.first}); PBT_CHECK(it != gv.end() && it->second == val, "ReadASCII_Triples: random values of (%ld,%ld) and its mirror differ", (long)k.first, (long)k.second); } auto it = w.find(k); if (it != w.end()) it->second = (double)val; } }
    cmpList<IT, NT>("ReadASCII_Triples", w, got); delete[] r; delete[] c; delete[] v; }
template<class IT, class NT> static void text(Tape &t, Ctx &ctx) {
    bool integral = std::is_integral<NT>::value; File f = make(t, true, integral, std::is_unsigned<NT>::value); count(ctx, f); put(f.text); Quiet q; CSR<IT, NT> m(path()); PBT_CHECK((int64_t)m.rows == f.m && (int64_t)m.cols == f.n && m.zerobased, "CSR(filename): %lld x %lld, the file says %ld x %ld", (long long)m.rows, (long long)m.cols, (long)f.m, (long)f.n); PBT_CHECK(m.rowptr[0] == 0 && m.rowptr[f.m] == m.nnz, "CSR(filename): row offsets do not span the entries");
    std::vector<std::tuple<int64_t, int64_t, NT>> got; for (int64_t i = 0; i < f.m; ++i) { PBT_CHECK(m.rowptr[i] <= m.rowptr[i + 1], "CSR(filename): row offsets decrease"); for (IT k = m.rowptr[i]; k < m.rowptr[i + 1]; ++k) got.push_back({i, (int64_t)m.colids[k], m.values[k]}); } cmpList<IT, NT>("CSR(filename)", full(f), got); }
template<class IT, class NT> static void binary(Tape &t, Ctx &ctx) {
    File f; do { f = make(t, false, std::is_integral<NT>::value, std::is_unsigned<NT>::value); f.sym = false; if (f.e.empty()) f.e.push_back({f.m - 1, 0, 3}); } while (0); { std::map<std::pair<int64_t, int64_t>, int> s; std::vector<E3> u; for (auto &e : f.e) if (!s[{e.r, e.c}]++) u.push_back(e); f.e = u; }
    count(ctx, f); std::string s; auto app = [&](const void *p, size_t n) { s.append((const char *)p, n); }; IT h[3] = {(IT)f.m, (IT)f.n, (IT)f.e.size()}; int bad = t.weighted({8, 1, 1, 1}); if (bad == 2) h[t.draw(3)] = 0; app(h, sizeof h); for (auto &e : f.e) { IT x = (IT)e.r; app(&x, sizeof x); } for (auto &e : f.e) { IT x = (IT)e.c; app(&x, sizeof x); } for (auto &e : f.e) { NT x = (NT)e.v; app(&x, sizeof x); }
    if (bad == 1) { size_t cut = sizeof h + t.draw(s.size() - sizeof h); s.resize(cut); } put(s); if (bad == 3) unlink(path().c_str()); ctx.label(bad == 0 ? "binary" : "binary, bad"); if (bad) ctx.note(strf(" [bad file %d, %zu bytes]", bad, s.size())); Quiet q; int d = open("/dev/null", O_RDONLY); close(d); CSC<IT, NT> c; int rc = ReadBinary(path(), c); if (bad) close(d);
    PBT_CHECK(rc == (bad ? -1 : 1), "ReadBinary returned %d for a %s file", rc, bad ? "broken" : "good"); if (!bad) { Ents w; for (auto &e : f.e) w[{e.r, e.c}] = e.v; cmpList<IT, NT>("ReadBinary", w, list(c, "ReadBinary", f.m, f.n)); } }
template<class NT> struct GT;
#define G(T, N) template<> struct GT<T> { static GrB_Info tuples(GrB_Index *i, GrB_Index *j, T *v, GrB_Index *n, GrB_Matrix A) { return GrB_Matrix_extractTuples_##N(i, j, v, n, A); } };
G(uint64_t, UINT64) G(int64_t, INT64) G(double, FP64) G(int32_t, INT32)
template<class NT> static void grb(Tape &t, Ctx &ctx) {
    static bool done = false; if (!done) { done = true; GrB_init(GrB_BLOCKING); } bool symz = t.chance(1, 2), nd = t.chance(1, 2), rnd = t.chance(1, 3); File f = make(t, false, std::is_integral<NT>::value, std::is_unsigned<NT>::value, symz); for (auto &e : f.e) if (std::abs(e.v) > 1e6) throw Discard{"sums may overflow"};
    count(ctx, f); ctx.note(strf(" [%s%s%s]", nd ? "no diagonal " : "", symz ? "symmetrise " : "", rnd ? "random" : "")); put(f.text); std::string pth = path(); std::vector<char> p(pth.begin(), pth.end()); p.push_back(0); GrB_Matrix A = nullptr; Quiet q; read_grb_mtx<NT>(&A, p.data(), nd, symz, rnd);
    Ents b = full(f, nd), w = b; if (symz) { w.clear(); for (auto &x : b) { w[x.first] += x.second; w[{x.first.second, x.first.first}] += x.second; } } GrB_Index nr, nc, nv; GrB_Matrix_nrows(&nr, A); GrB_Matrix_ncols(&nc, A); GrB_Matrix_nvals(&nv, A); PBT_CHECK((int64_t)nr == f.m && (int64_t)nc == f.n && nv == w.size(), "read_grb_mtx: %llu x %llu with %llu entries, expected %ld x %ld with %zu", (unsigned long long)nr, (unsigned long long)nc, (unsigned long long)nv, (long)f.m, (long)f.n, w.size());
    std::vector<GrB_Index> i(nv), j(nv); std::vector<NT> v(nv); GrB_Index n = nv; GT<NT>::tuples(i.data(), j.data(), v.data(), &n, A); std::vector<std::tuple<int64_t, int64_t, NT>> got; for (GrB_Index k = 0; k < n; ++k) got.push_back({(int64_t)i[k], (int64_t)j[k], v[k]});
    if (rnd) { std::map<std::pair<int64_t, int64_t>, NT> gv; for (auto &x : got) gv[{std::get<0>(x), std::get<1>(x)}] = std::get<2>(x); for (auto &x : gv) { bool both = symz && b.count(x.first) && b.count({x.first.second, x.first.first}); NT lo = both ? 14 : 7, hi = both ? 32 : 16; PBT_CHECK(x.second >= lo && x.second <= hi, "read_grb_mtx: random value %s at (%ld,%ld)", kernimpl::vstr(x.second).c_str(), (long)x.first.first, (long)x.first.second); auto mir = gv.find({x.first.second, x.first.first}); if (symz || f.sym) PBT_CHECK(mir != gv.end() && mir->second == x.second, "read_grb_mtx: not symmetric at (%ld,%ld)", (long)x.first.first, (long)x.first.second); auto it = w.find(x.first); if (it != w.end()) it->second = (double)x.second; } }
    cmpList<GrB_Index, NT>("read_grb_mtx", w, got); GrB_Matrix_free(&A); }
PBT_PROP(ascii_int32_double, 2) { ascii<int32_t, double>(t, ctx); }
PBT_PROP(ascii_int64_int64, 1) { ascii<int64_t, int64_t>(t, ctx); }
PBT_PROP(ascii_uint64_float, 1) { ascii<uint64_t, float>(t, ctx); }
PBT_PROP(ascii_int32_int32, 1) { ascii<int32_t, int32_t>(t, ctx); }
PBT_PROP(text_int32_double, 2) { text<int32_t, double>(t, ctx); }
PBT_PROP(text_int64_int32, 1) { text<int64_t, int32_t>(t, ctx); }
PBT_PROP(text_uint64_uint64, 1) { text<uint64_t, uint64_t>(t, ctx); }
PBT_PROP(binary_int32_double, 1) { binary<int32_t, double>(t, ctx); }
PBT_PROP(binary_int64_int32, 1) { binary<int64_t, int32_t>(t, ctx); }
PBT_PROP(grb_int64, 2) { grb<int64_t>(t, ctx); }
PBT_PROP(grb_uint64, 1) { grb<uint64_t>(t, ctx); }
PBT_PROP(grb_double, 1) { grb<double>(t, ctx); }
