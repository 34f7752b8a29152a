// C20 triangle counting, C21 k-truss, C22 betweenness: the benchmark programs on generated graph files, against direct definitions.
// The program's main is compiled into this file under another name and called once per case.
#include <omp.h>
#include <stdio.h>
#include <iostream>
#include <algorithm>
#include <numeric>
#include <functional>
#include <fstream>
#include <iterator>
#include <ctime>
#include <cmath>
#include <string>
#include <sstream>
#include <random>
#include <iomanip>
#include <cassert>
#include <cstring>
#include <tuple>
extern "C" {
#include "GraphBLAS.h"
}
// GraphBLAS may be initialised once per process, the programs are called many times
static GrB_Info once_init(int mode) { static bool done = false; if (!done) { done = true; return GrB_init((GrB_Mode)mode); } return GrB_SUCCESS; }
static GrB_Info no_finalize() { return GrB_SUCCESS; }
static inline GrB_Info GrB_Matrix_wait(GrB_Matrix *A) { return GrB_Matrix_wait(*A, GrB_MATERIALIZE); }    // older interface used by TriCntAllGrb
#define GrB_init once_init
#define GrB_finalize no_finalize
#if BENCH == 201
#define bench_entry tricnt_grb_entry
#else
#define bench_entry bench_main
#endif
#define main bench_entry
#if BENCH == 20
#include "benchmarks/TriCntAll.cpp"
#elif BENCH == 201
#include "benchmarks/TriCntAllGrb.cpp"
#elif BENCH == 21
#include "benchmarks/KTrussAllGrb.cpp"
#else
#include "benchmarks/BCAllGrb.cpp"
#endif
#undef main
#if BENCH != 201
#include "gen.h"
#include "quiet.h"
using gen::HMat; using pbt::Tape; using pbt::Ctx; using pbt::strf; using pbt::RngSrc; using pbt::Src;
#if BENCH == 20
int tricnt_grb_entry(int, char **);
#define TITLE "one triangle-counting run (TriCntAll or TriCntAllGrb, one mode, one team size, 1-2 repetitions)"
#elif BENCH == 21
#define TITLE "one k-truss run (KTrussAllGrb, one mode, k from 3 to 7, one or two team sizes, 1-2 repetitions)"
#else
#define TITLE "one betweenness run (BCAllGrb with every vertex as source, one mode, one or two team sizes; or one algorithm pair called with a generated batch of sources, every vertex compared)"
#endif
namespace pbt { const char *g_rule = "one case = one generated graph (random sparse and dense, cliques with tails, stars, grids, disjoint parts, chains of triangles, layered; with self loops, one or both directions listed, symmetric or general files, with and without values) written as a coordinate file, and " TITLE
    "; every reported line is parsed and compared with the answer computed from the definition. Non-trivial: the graph has edges and the answer is neither zero nor trivial (C20: at least one triangle and one edge in none; C21: the truss is neither empty nor the whole graph; C22: some vertex lies on a shortest path); distinct by the list of generator draws"; }
static std::string path() { static std::string p = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/g" + std::to_string(getpid()) + ".mtx"; return p; }
struct Graph { int64_t n; std::vector<std::set<int64_t>> out; int64_t m() const { int64_t s = 0; for (auto &x : out) s += x.size(); return s; } };
static Graph genGraph(Tape &t, int64_t maxN, bool directed, bool fewPaths = false) {
    Graph g; int kind = t.weighted({5, 3, 2, 2, 2, 2, 1, 1, 2}); g.n = t.chance(1, 3) ? t.range(1, std::min<int64_t>(8, maxN)) : t.range(1, maxN); g.out.resize(g.n); bool small = g.n <= 12; RngSrc rs(small ? 0 : t.draw(0)); Src &s = small ? (Src &)t : (Src &)rs; int64_t n = g.n;
    auto add = [&](int64_t u, int64_t v) { if (u < 0 || v < 0 || u >= n || v >= n || u == v) return; g.out[u].insert(v); if (!directed) g.out[v].insert(u); };
    if (fewPaths && n > 150 && (kind == 4 || kind == 5 || kind == 8)) kind = 0;     // shortest-path counts stay representable
    switch (kind) {
    case 0: { int64_t e = s.range(0, 3 * n); for (int64_t i = 0; i < e; ++i) add(s.draw(n), s.draw(n)); break; }
    case 1: { unsigned d = s.range(2, 5); int64_t lim = std::min<int64_t>(n, 60); for (int64_t i = 0; i < lim; ++i) for (int64_t j = directed ? 0 : i + 1; j < lim; ++j) if (s.chance(1, d)) add(i, j); break; }
    case 2: { int64_t c = std::min<int64_t>(n, s.range(2, 12)); for (int64_t i = 0; i < c; ++i) for (int64_t j = 0; j < i; ++j) add(i, j); for (int64_t i = c; i < n; ++i) add(i - 1, i); break; }      // clique with tail
    case 3: { for (int64_t i = 1; i < n; ++i) add(0, i); for (int64_t i = 1; i + 1 < n; i += 1 + s.draw(3)) add(i, i + 1); break; }      // wheel-like
    case 4: { int64_t w = std::max<int64_t>(1, s.range(1, 8)); for (int64_t i = 0; i < n; ++i) { if ((i + 1) % w) add(i, i + 1); add(i, i + w); if (s.chance(1, 4)) add(i, i + w + 1); } break; }                         // grid with diagonals
    case 5: { for (int64_t i = 0; i + 2 < n; i += 1 + s.draw(2)) { add(i, i + 1); add(i + 1, i + 2); add(i, i + 2); } break; }            // chain of triangles
    case 6: { for (int64_t b = 0; b < n;) { int64_t c = 1 + s.draw(6); for (int64_t i = b; i < std::min(n, b + c); ++i) for (int64_t j = b; j < i; ++j) if (s.chance(4, 5)) add(i, j); b += c; } break; } // disjoint near-cliques
    case 7: break;                                                                                                                      // no edges
    default: { int64_t w = 1 + s.draw(5); for (int64_t i = 0; i < n; ++i) for (int64_t j = (i / w + 1) * w; j < std::min(n, (i / w + 2) * w); ++j) if (s.chance(2, 3)) add(i, j); break; } }  // layered
    if (directed && kind > 1 && t.chance(1, 2)) { for (int64_t i = 0; i < n; ++i) { auto o = g.out[i]; for (int64_t j : o) if (s.chance(1, 3)) g.out[j].insert(i); } }
    if (t.chance(1, 3)) { std::vector<int64_t> p(n); std::iota(p.begin(), p.end(), 0); for (int64_t i = n; i > 1; --i) std::swap(p[i - 1], p[s.draw(i)]); Graph h; h.n = n; h.out.resize(n); for (int64_t i = 0; i < n; ++i) for (int64_t j : g.out[i]) h.out[p[i]].insert(p[j]); g = h; }
    return g; }
// undirected: each edge listed once in a symmetric file, or once or twice (each or some) in a general one
static std::string fileOf(Tape &t, const Graph &g, bool directed) {
    bool sym = !directed && t.chance(1, 2); int times = directed ? 2 : 1 + t.draw(3); bool loops = t.chance(1, 4), vals = t.chance(1, 2); RngSrc s(t.draw(0)); std::vector<std::pair<int64_t, int64_t>> e;     // 3: some edges once and some twice
    for (int64_t i = 0; i < g.n; ++i) { for (int64_t j : g.out[i]) { if (directed) e.push_back({i, j}); else if (i > j) { bool turn = !sym && s.chance(1, 2); auto x = turn ? std::make_pair(j, i) : std::make_pair(i, j); e.push_back(x); if (!sym && (times == 2 || (times == 3 && s.chance(1, 2)))) e.push_back({x.second, x.first}); } } if (loops && s.chance(1, 3)) e.push_back({i, i}); }
    if (t.chance(1, 2)) for (size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[s.draw(k)]); std::string f = std::string("%%MatrixMarket matrix coordinate ") + (vals ? "integer " : "pattern ") + (sym ? "symmetric\n" : "general\n"); if (t.chance(1, 4)) f += "% generated\n"; f += strf("%ld %ld %zu\n", (long)g.n, (long)g.n, e.size()); for (auto &x : e) f += strf(vals ? "%ld %ld %ld\n" : "%ld %ld\n", (long)x.first + 1, (long)x.second + 1, (long)s.range(1, 9)); return f; }
static void put(const std::string &s) { FILE *f = fopen(path().c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { fprintf(stderr, "cannot write the case file\n"); exit(3); } fclose(f); }
static std::vector<std::string> split(const std::string &l, char sep) { std::vector<std::string> v(1); for (char c : l) { if (c == sep) v.push_back(""); else if (c != ' ') v.back() += c; } return v; }
struct Line { std::string alg; std::vector<std::string> tail; };
static std::vector<Line> logLines(const std::string &out, char sep, size_t ntail) { std::vector<Line> r; std::istringstream is(out); std::string l; while (std::getline(is, l)) { auto f = split(l, sep); if (f[0] != "LOG") continue; while (!f.empty() && f.back().empty()) f.pop_back(); if (f.size() < ntail + 3) pbt::fail("unreadable report line: %s", l.c_str()); Line x; for (size_t i = 2; i + ntail < f.size(); ++i) x.alg += f[i]; x.tail.assign(f.end() - ntail, f.end()); r.push_back(x); } return r; }
static std::string callMain(int (*m)(int, char **), std::vector<std::string> args, const char *mode, int inner) {
    setenv("MODE", mode, 1); setenv("INNER_ITERS", std::to_string(inner).c_str(), 1); setenv("OUTER_ITERS", "1", 1); unsetenv("WARMUP_ITERS"); unsetenv("DISABLE_HEAP"); std::vector<std::vector<char>> b; std::vector<char *> v; for (auto &a : args) { b.emplace_back(a.begin(), a.end()); b.back().push_back(0); } for (auto &x : b) v.push_back(x.data()); v.push_back(nullptr);
    Quiet q; std::cout << std::setprecision(4); int rc = m((int)args.size(), v.data()); if (rc != 0) pbt::fail("the program returned %d", rc); return q.out.str(); }
static int team(Tape &t) { return t.chance(1, 3) ? 1 : 2 + (int)t.draw(5); }

#if BENCH == 20
// Known finding: TriCntAll's HashIntersect report adds up mask values (all 1), not products: the number of edges of the relabelled
// lower triangle that have at least one product. Any other number that is not the count of triangles is still a violation.
static int64_t maskSum(const Graph &g, const std::string &f) {
    int64_t n = g.n; std::vector<std::pair<int64_t, int64_t>> deg(n); for (int64_t i = 0; i < n; ++i) deg[i] = {0, i}; bool sym = f.find("symmetric") != std::string::npos, head = true; std::istringstream is(f); std::string l;
    while (std::getline(is, l)) { if (l[0] == '%') continue; if (head) { head = false; continue; } long a, b; if (sscanf(l.c_str(), "%ld %ld", &a, &b) != 2) continue; deg[a - 1].first++; if (sym && a != b) deg[b - 1].first++; }
    std::sort(deg.begin(), deg.end(), std::greater<>()); std::vector<std::set<int64_t>> low(n); for (int64_t i = 0; i < n; ++i) for (int64_t j : g.out[i]) { int64_t x = deg[i].second, y = deg[j].second; low[std::max(x, y)].insert(std::min(x, y)); }
    int64_t s = 0; for (int64_t i = 0; i < n; ++i) for (int64_t j : low[i]) { bool any = false; for (int64_t k : low[i]) any = any || low[k].count(j); s += any; } return s; }
PBT_PROP(triangles, 1) {
    bool grb = t.chance(1, 2); Graph g = genGraph(t, t.chance(1, 8) ? t.chance(1, 10) ? t.chance(1, 6) ? 90000 : 4000 : 300 : 40, false); std::string f = fileOf(t, g, false); put(f);
    if (!grb && g.m() == 0) throw pbt::Discard{"known finding: TriCntAll on a graph without edges"};
    int64_t tri = 0, inC = 0; for (int64_t i = 0; i < g.n; ++i) for (int64_t j : g.out[i]) if (j > i) { int64_t c = 0; bool sw = g.out[i].size() < g.out[j].size(); auto &few = g.out[sw ? i : j], &many = g.out[sw ? j : i]; for (int64_t k : few) if (many.count(k)) { ++c; if (k > j) ++tri; } inC += c > 0; }
    static const char *mA[] = {"all1p", "all2p", "inner", "msa", "hash", "heap", "intersect", "all"}, *mG[] = {"all1p", "all2p", "grb", "msa", "hash", "heap", "benchmark", "all"}; const char *mode = grb ? mG[t.draw(8)] : mA[t.draw(8)]; int tn = team(t), inner = t.chance(1, 3) ? 2 : 1;
    std::vector<std::string> args{"prog", path(), std::to_string(tn)}; if (grb && t.chance(1, 3)) args.push_back(std::to_string(team(t))); ctx.note(strf("%s mode %s threads %d, %ld vertices, %ld edges, %ld triangles; file:\n", grb ? "TriCntAllGrb" : "TriCntAll", mode, tn, (long)g.n, (long)g.m() / 2, (long)tri) + f.substr(0, 300)); ctx.label(std::string(grb ? "TriCntAllGrb " : "TriCntAll ") + mode); ctx.nontrivial = tri > 0 && inC < g.m() / 2;
    std::string out = callMain(grb ? tricnt_grb_entry : bench_main, args, mode, inner); auto ls = logLines(out, grb ? ';' : ',', grb ? 5 : 6); PBT_CHECK(!ls.empty(), "the program reports nothing"); 
    int64_t knownWrong = maskSum(g, f);
    for (auto &l : ls) { const std::string &cnt = l.tail[4]; if (!grb && l.alg.find("HashIntersect") == 0 && atoll(cnt.c_str()) == knownWrong) { if (tri != knownWrong) ctx.label("known finding: HashIntersect sums the mask"); continue; } PBT_CHECK(atoll(cnt.c_str()) == tri, "%s reports %s triangles, the graph has %ld", l.alg.c_str(), cnt.c_str(), (long)tri); } }
#elif BENCH == 21
PBT_PROP(ktruss, 1) {
    Graph g = genGraph(t, t.chance(1, 8) ? t.chance(1, 12) ? 2000 : 200 : 30, false); std::string f = fileOf(t, g, false); put(f); int k = 3 + t.draw(t.chance(1, 4) ? 5 : 2);
    auto h = g.out; bool ch = true; int rounds = 0; while (ch) { ch = false; ++rounds; std::vector<std::pair<int64_t, int64_t>> del; for (int64_t i = 0; i < g.n; ++i) for (int64_t j : h[i]) { int64_t c = 0; bool sw = h[i].size() < h[j].size(); for (int64_t x : h[sw ? i : j]) c += h[sw ? j : i].count(x); if (c < k - 2) del.push_back({i, j}); } for (auto &e : del) h[e.first].erase(e.second); ch = !del.empty(); } int64_t left = 0; for (auto &x : h) left += x.size();
    static const char *modes[] = {"all1p", "all2p", "grb", "msa", "hash", "heap", "benchmark", "all"}; const char *mode = modes[t.draw(8)]; int tn = team(t), inner = t.chance(1, 3) ? 2 : 1; std::vector<std::string> args{"prog", path(), std::to_string(k), std::to_string(tn)}; if (t.chance(1, 3)) args.push_back(std::to_string(team(t)));
    ctx.note(strf("k=%d mode %s threads %d, %ld vertices, %ld edges, truss has %ld; file:\n", k, mode, tn, (long)g.n, (long)g.m() / 2, (long)left / 2) + f.substr(0, 300)); ctx.label(mode); ctx.label(strf("k=%d", k)); ctx.label(strf("%d rounds", std::min(rounds, 6))); ctx.nontrivial = left && left < g.m();
    auto ls = logLines(callMain(bench_main, args, mode, inner), ';', 7); PBT_CHECK(!ls.empty(), "the program reports nothing"); for (auto &l : ls) PBT_CHECK(atoll(l.tail[5].c_str()) == left, "%s reports %s entries in the %d-truss, it has %ld", l.alg.c_str(), l.tail[5].c_str(), k, (long)left); }
#else
static std::vector<double> brandes(const Graph &g, const std::vector<int64_t> &srcs) {
    std::vector<double> bc(g.n, 0); for (int64_t s : srcs) { std::vector<double> sig(g.n, 0), del(g.n, 0); std::vector<int64_t> d(g.n, -1), q{s}; d[s] = 0; sig[s] = 1; for (size_t h = 0; h < q.size(); ++h) for (int64_t w : g.out[q[h]]) { if (d[w] < 0) { d[w] = d[q[h]] + 1; q.push_back(w); } if (d[w] == d[q[h]] + 1) sig[w] += sig[q[h]]; }
        for (size_t h = q.size(); h-- > 0;) { int64_t v = q[h]; for (int64_t w : g.out[v]) if (d[w] == d[v] + 1) del[v] += sig[v] / sig[w] * (1 + del[w]); if (v != s) bc[v] += del[v]; } } return bc; }
static bool close(double a, double b, double scale) { return std::fabs(a - b) <= 2e-4 * std::max({1.0, std::fabs(b), scale}); }
typedef uint64_t Ix; typedef float Vl; typedef CSR<Ix, Vl> Cs; typedef void (*Fn)(const Cs &, const Cs &, Cs &, const Cs &, Vl(Vl &, Vl &), plus<Vl>, unsigned);
struct Pair { const char *name; Fn plain, cmpl; };
static const Pair pairs[] = {
    {"heap 1p", MaskedSpGEMM1p<MaskedHeap<false, true, 0>::Impl>, MaskedSpGEMM1p<MaskedHeap<true, true, 0>::Impl>}, {"heap 2p", MaskedSpGEMM2p<MaskedHeap<false, true, 0>::Impl>, MaskedSpGEMM2p<MaskedHeap<true, true, 0>::Impl>},
    {"hash 1p", MaskedSpGEMM1p<MaskedHash<false, false>::Impl>, MaskedSpGEMM1p<MaskedHash<true, true>::Impl>}, {"hash 2p", MaskedSpGEMM2p<MaskedHash<false, false>::Impl>, MaskedSpGEMM2p<MaskedHash<true, true>::Impl>},
    {"msa1a 1p", MaskedSpGEMM1p<MSA1A<false, false>::Impl>, MaskedSpGEMM1p<MSA1A<true, true>::Impl>}, {"msa1a 2p", MaskedSpGEMM2p<MSA1A<false, false>::Impl>, MaskedSpGEMM2p<MSA1A<true, true>::Impl>},
    {"msa2a 1p", MaskedSpGEMM1p<MSA2A<false, false>::Impl>, MaskedSpGEMM1p<MSA2A<true, true>::Impl>}, {"msa2a 2p", MaskedSpGEMM2p<MSA2A<false, false>::Impl>, MaskedSpGEMM2p<MSA2A<true, true>::Impl>}};
static void options() { once_init(GrB_BLOCKING); double bs[GxB_NBITMAP_SWITCH]; std::fill(bs, bs + GxB_NBITMAP_SWITCH, 1.0); GxB_Global_Option_set(GxB_BITMAP_SWITCH, bs); GxB_Global_Option_set(GxB_HYPER_SWITCH, GxB_NEVER_HYPER); GxB_Global_Option_set(GxB_FORMAT, GxB_BY_ROW); }
PBT_PROP(betweenness_program, 1) {
    bool dir = t.chance(1, 2); Graph g = genGraph(t, t.chance(1, 8) ? t.chance(1, 15) ? 700 : 120 : 24, dir, true); std::string f = fileOf(t, g, dir); if (!dir) {   // the program does not symmetrise: the file must list what it means
        bool sym = f.find("symmetric") != std::string::npos; if (!sym) { int64_t n = g.n; Graph h; h.n = n; h.out.resize(n); std::istringstream is(f); std::string l; bool hd = false; while (std::getline(is, l)) { if (l[0] == '%') continue; if (!hd) { hd = true; continue; } long a, b; if (sscanf(l.c_str(), "%ld %ld", &a, &b) == 2 && a != b) h.out[a - 1].insert(b - 1); } g = h; } }
    put(f); std::vector<int64_t> all(g.n); std::iota(all.begin(), all.end(), 0); auto bc = brandes(g, all); double sum = 0; for (double x : bc) sum += x;
    static const char *modes[] = {"msa", "hash", "heap", "grb", "benchmark", "all"}; const char *mode = modes[t.draw(6)]; int tn = team(t), inner = t.chance(1, 3) ? 2 : 1; std::vector<std::string> args{"prog", path(), std::to_string(g.n + t.draw(3)), std::to_string(tn)}; if (t.chance(1, 3)) args.push_back(std::to_string(team(t)));
    ctx.note(strf("program, mode %s threads %d, %ld vertices, %ld edges, centralities sum to %g; file:\n", mode, tn, (long)g.n, (long)g.m(), sum) + f.substr(0, 300)); ctx.label(mode); ctx.nontrivial = sum > 0;
    auto ls = logLines(callMain(bench_main, args, mode, inner), ';', 7); PBT_CHECK(!ls.empty(), "the program reports nothing"); for (auto &l : ls) PBT_CHECK(close(atof(l.tail[6].c_str()), sum, sum), "%s reports %s, the centralities sum to %g", l.alg.c_str(), l.tail[6].c_str(), sum); }
PBT_PROP(betweenness_batch, 3) {
    bool dir = t.chance(1, 2); Graph g = genGraph(t, t.chance(1, 8) ? t.chance(1, 15) ? 1500 : 150 : 30, dir, true); int64_t s = t.range(1, g.n); std::vector<int64_t> ids(g.n), srcs; std::iota(ids.begin(), ids.end(), 0); for (int64_t i = 0; i < s; ++i) { std::swap(ids[i], ids[i + t.draw(g.n - i)]); srcs.push_back(ids[i]); }
    int nt = team(t), rep = t.chance(1, 4) ? 2 : 1; ctx.note(strf("batch of %ld sources, %d threads, %ld vertices, %ld edges:", (long)s, nt, (long)g.n, (long)g.m())); for (int64_t i = 0; i < g.n && i < 30; ++i) for (int64_t j : g.out[i]) if (ctx.desc.size() < 400) ctx.desc += strf(" %ld>%ld", (long)i, (long)j); auto bc = brandes(g, srcs); double mx = 0; for (double x : bc) mx = std::max(mx, x); ctx.nontrivial = mx > 0;
    options(); GxB_Global_Option_set(GxB_GLOBAL_NTHREADS, nt); omp_set_num_threads(nt); std::vector<GrB_Index> ri, ci; std::vector<float> v; for (int64_t i = 0; i < g.n; ++i) for (int64_t j : g.out[i]) { ri.push_back(i); ci.push_back(j); v.push_back(7 + (i * 31 + j * 17) % 10); } GrB_Matrix A = nullptr; GrbMatrixBuild<float>()(&A, ri.data(), ci.data(), v.data(), g.n, g.n, ri.size()); std::vector<GrB_Index> sv(srcs.begin(), srcs.end());
    for (auto &p : pairs) for (int r = 0; r < rep; ++r) { GrB_Vector d = nullptr; stats_bc st; msp_bc_internal<Ix, Vl, CSR, CSR, CSR, CSR>(p.plain, p.cmpl, &d, A, sv, st, nt); PBT_CHECK(d, "%s: no centralities", p.name); GrB_Index n = 0; GrB_Vector_size(&n, d); PBT_CHECK((int64_t)n == g.n, "%s: %llu centralities for %ld vertices", p.name, (unsigned long long)n, (long)g.n);
        for (int64_t i = 0; i < g.n; ++i) { float x = 0; GrB_Info in = GrB_Vector_extractElement_FP32(&x, d, i); PBT_CHECK(in == GrB_SUCCESS && close(x, bc[i], 0), "%s: the centrality of vertex %ld is %g, expected %g", p.name, (long)i, x, bc[i]); } GrB_Vector_free(&d); GrB_Index nv; GrB_Matrix_nvals(&nv, A); PBT_CHECK(nv == ri.size(), "%s lost the graph", p.name); }
    GrB_Matrix_free(&A); }
#endif
#endif
