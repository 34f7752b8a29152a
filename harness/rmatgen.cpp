// C24, second half: GTgraph's R-MAT generator (functions, options, config file, sorting) and the random streams under it.
#include <vector>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <string>
#include <cstring>
#include <unistd.h>
#include <getopt.h>
#include <sys/wait.h>
extern "C" {
#include "GTgraph/R-MAT/graph.h"
#include "GTgraph/R-MAT/init.h"
}
#undef bits
extern "C" int gtrmat_main(int, char **);
#include "pbt.h"
#include "quiet.h"
using pbt::Tape; using pbt::Ctx; using pbt::strf;
struct QuietErr { int fd; QuietErr() { fflush(stderr); if (getenv("PBT_LOUD")) { fd = dup(2); return; } fd = dup(2); int x = open("/dev/null", O_WRONLY); dup2(x, 2); close(x); } ~QuietErr() { fflush(stderr); dup2(fd, 2); close(fd); } };
static void scratch() { static pid_t who = 0; if (who == getpid()) return; who = getpid(); if (chdir(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp")) {} }
struct E { long u, v, w; bool operator==(const E &o) const { return u == o.u && v == o.v && w == o.w; } bool operator<(const E &o) const { return std::tie(u, v, w) < std::tie(o.u, o.v, o.w); } };
typedef std::vector<E> Es;
struct P { long n, m, wlo, whi; double a, b, c, d; bool self; };
static std::string show(const P &p) { return strf("%ld vertices, %ld edges, a %.3f b %.3f c %.3f d %.3f, weights [%ld,%ld)%s", p.n, p.m, p.a, p.b, p.c, p.d, p.wlo, p.whi, p.self ? ", self loops" : ""); }
static void set(const P &p, int store, int sort, int type) { getParams(); ::n = p.n; ::m = p.m; ::a = p.a; ::b = p.b; ::c = p.c; ::d = p.d; MAX_WEIGHT = p.whi; MIN_WEIGHT = p.wlo; SELF_LOOPS = p.self; STORE_IN_MEMORY = store; SORT_EDGELISTS = sort; SORT_TYPE = type; }
static P gen(Tape &t) { P p; p.n = t.chance(2, 3) ? 1l << (1 + t.draw(11)) : 2 + t.draw(3000); p.m = t.chance(1, 20) ? 0 : t.chance(1, 4) ? 3000 + t.draw(9000) : 1 + t.draw(400); if (t.chance(1, 60)) { p.n = t.chance(2, 3) ? 1l << (12 + t.draw(10)) : 3000 + t.draw(2000000); p.m = t.chance(1, 2) ? 40000 + t.draw(60000) : 1 + t.draw(9000); } p.self = t.chance(1, 2); p.wlo = t.draw(200); p.whi = p.wlo + (t.chance(1, 8) ? 0 : 1 + t.draw(1000)); if (t.chance(1, 3)) p.a = p.b = p.c = p.d = .25; else { double w[4], s = 0; for (double &x : w) s += x = 2 + t.draw(18); p.a = w[0] / s; p.b = w[1] / s; p.c = w[2] / s; p.d = w[3] / s; } return p; }
static Es run(const char *how, const P &p, int sort, int type) { set(p, 1, sort, type); graph g; { QuietErr q; graphGen(&g); } PBT_CHECK(g.n == p.n && g.m == p.m, "%s: the graph says %ld vertices and %ld edges", how, g.n, g.m); Es e(p.m); for (long i = 0; i < p.m; ++i) e[i] = {g.start[i], g.end[i], g.w[i]}; free(g.start); free(g.end); free(g.w); return e; }
static void range(const char *how, const P &p, const Es &e) { for (auto &x : e) { PBT_CHECK(x.u >= 0 && x.u < p.n && x.v >= 0 && x.v < p.n, "%s: edge %ld-%ld in a graph of %ld vertices", how, x.u, x.v, p.n); PBT_CHECK(p.self || x.u != x.v, "%s: self loop at %ld", how, x.u); PBT_CHECK(x.w >= p.wlo && (x.w < p.whi || x.w == p.wlo), "%s: weight %ld outside [%ld,%ld)", how, x.w, p.wlo, p.whi); } }
static Es parse(const std::string &f, const P &p) { std::ifstream in(f); PBT_CHECK(in.good(), "no file %s", f.c_str()); Es e; std::string l; int pl = 0; while (std::getline(in, l)) { if (l.find_first_not_of(' ') == std::string::npos || l[0] == 'c') continue; long x, y, z; if (sscanf(l.c_str(), "p sp %ld %ld", &x, &y) == 2) { PBT_CHECK(x == p.n && y == p.m && e.empty() && !pl++, "problem line '%s' for %ld vertices and %ld edges", l.c_str(), p.n, p.m); continue; } PBT_CHECK(sscanf(l.c_str(), "a %ld %ld %ld", &x, &y, &z) == 3, "line '%.60s' is not an arc", l.c_str()); e.push_back({x - 1, y - 1, z}); } PBT_CHECK(pl == 1, "%d problem lines", pl); return e; }
static void same(const char *x, const Es &a, const char *y, const Es &b) { PBT_CHECK(a.size() == b.size(), "%s has %zu edges, %s %zu", x, a.size(), y, b.size()); for (size_t i = 0; i < a.size(); ++i) PBT_CHECK(a[i] == b[i], "edge %zu: %s has %ld-%ld weight %ld, %s has %ld-%ld weight %ld", i, x, a[i].u, a[i].v, a[i].w, y, b[i].u, b[i].v, b[i].w); }
static void heapSorted(const Es &plain, Es got) { for (size_t i = 1; i < got.size(); ++i) PBT_CHECK(got[i - 1].u <= got[i].u, "heap sort: start %ld before %ld", got[i - 1].u, got[i].u); Es s = plain; std::sort(s.begin(), s.end()); std::sort(got.begin(), got.end()); PBT_CHECK(s == got, "heap sort changed the edges"); }
static void stable(const Es &plain, const char *how, const Es &got) { Es s = plain; std::stable_sort(s.begin(), s.end(), [](const E &x, const E &y) { return x.u < y.u; }); same("the sorted reference", s, how, got); }
PBT_PROP(rmat, 4) {
    scratch(); P p = gen(t); int pick = t.draw(4); ctx.note(show(p)); ctx.label("R-MAT"); ctx.nontrivial = p.m >= 20; Es plain = run("unsorted", p, 0, 0); range("unsorted", p, plain);
    if (p.m >= 3000 && !(p.n & (p.n - 1)) && (p.self || p.n >= 512)) { double q[4] = {0, 0, 0, 0}, w[4] = {p.a, p.b, p.c, p.d}; for (auto &x : plain) q[(x.u >= p.n / 2) * 2 + (x.v >= p.n / 2)]++; for (int i = 0; i < 4; ++i) { double tol = 6 * std::sqrt(w[i] * (1 - w[i]) / p.m) + (p.self ? .004 : .03); PBT_CHECK(std::fabs(q[i] / p.m - w[i]) < tol, "%.4f of the edges lie in quadrant %c, expected %.4f +- %.4f", q[i] / p.m, "abcd"[i], w[i], tol); } ctx.label("shares"); }
    if (p.m >= 200 * p.n && p.self && p.a == .25 && !(p.n & (p.n - 1))) { std::vector<char> s(p.n), e(p.n); for (auto &x : plain) s[x.u] = e[x.v] = 1; for (long v = 0; v < p.n; ++v) PBT_CHECK(s[v] && e[v], "vertex %ld of %ld never occurs in %ld uniform edges", v, p.n, p.m); }
    if (pick == 0) same("the first graph", plain, "the same graph again", run("again", p, 0, 0));
    else if (pick == 1) stable(plain, "counting sort", run("counting sort", p, 1, 0));
    else if (pick == 2) heapSorted(plain, run("heap sort", p, 1, 1));
    else { set(p, 0, 0, 0); std::string f = strf("g%d.gr", getpid()); strcpy(OUTFILE, f.c_str()); graph g; { QuietErr q; graphGen(&g); } Es e = parse(f, p); unlink(f.c_str()); same("memory", plain, "the file written on the fly", e); ctx.label("on the fly"); } }
PBT_PROP(rmat_program, 2) {
    scratch(); P p = gen(t); bool cfg = t.chance(1, 2); std::string f = strf("o%d.gr", getpid()), cf = strf("c%d.cfg", getpid()); std::vector<std::string> av = {"GTgraph-rmat"}; std::string txt; int type = t.draw(2), sort = t.draw(2);
    if (cfg) { std::vector<std::string> ls = {strf("n %ld", p.n), strf("m %ld", p.m), strf("a %.17g", p.a), strf("b %.17g", p.b), strf("c %.17g", p.c), strf("d %.17g", p.d), strf("MAX_WEIGHT %ld", p.whi), strf("MIN_WEIGHT %ld", p.wlo), strf("SELF_LOOPS %d", (int)p.self), strf("SORT_EDGELISTS %d", sort), strf("SORT_TYPE %d", type), "STORE_IN_MEMORY 1", "WRITE_TO_FILE 1", "# a comment"}; for (size_t i = ls.size(); i > 1; --i) std::swap(ls[i - 1], ls[t.draw(i)]); std::ofstream o(cf); for (auto &l : ls) o << l << "\n"; bool first = t.chance(1, 2); if (first) av.insert(av.end(), {"-o", f, "-c", cf}); else av.insert(av.end(), {"-c", cf, "-o", f}); }
    else { p.a = .45; p.b = p.c = .15; p.d = .25; p.wlo = 0; p.whi = 100; p.self = false; sort = 1; type = 0; std::vector<std::vector<std::string>> os = {{"-n", std::to_string(p.n)}, {"-m", std::to_string(p.m)}, {"-o", f}}; for (size_t i = 2; i > 1; --i) std::swap(os[i - 1], os[t.draw(i)]); for (auto &o : os) av.insert(av.end(), o.begin(), o.end()); }
    std::string line; std::vector<char *> cv; for (auto &x : av) { cv.push_back((char *)x.c_str()); line += x + " "; } cv.push_back(nullptr); ctx.note(line + show(p)); ctx.label("R-MAT program"); ctx.nontrivial = p.m >= 20; getParams(); optind = 0; int rc; { QuietErr q; rc = gtrmat_main((int)av.size(), cv.data()); } PBT_CHECK(rc == 0, "the program returned %d", rc);
    P back = p; Es got = parse(f, p); unlink(f.c_str()); unlink(cf.c_str()); range("program", p, got); Es plain = run("unsorted", back, 0, 0); if (!sort) same("the functions", plain, "the program", got); else if (type) heapSorted(plain, got); else stable(plain, "the program", got); }
PBT_PROP(rmat_refused, 1) {     // a command line the program cannot follow ends it in failure, and no graph is written
    scratch(); std::string f = strf("o%d.gr", getpid()); unlink(f.c_str()); unlink("sample.gr"); int kind = t.draw(3); static const char *w[] = {"a config file that is not there", "more arguments than it takes", "an option it does not know"}; ctx.label("refused"); ctx.nontrivial = true; std::vector<std::vector<std::string>> o = {{"-n", strf("%d", 2 + (int)t.draw(9))}, {"-m", strf("%d", 1 + (int)t.draw(9))}};
    if (kind == 0) o.insert(o.begin() + t.draw(3), {"-c", "missing.cfg"}); if (kind == 1) o.insert(o.end(), {{"-o", f}, {"-n", "4"}, {"-m", "3"}}); if (kind == 2) o.insert(o.begin() + t.draw(3), {t.chance(1, 2) ? "-z" : "-q", "4"}); std::vector<std::string> av = {"GTgraph-rmat"}; for (auto &x : o) av.insert(av.end(), x.begin(), x.end());
    std::string line; std::vector<char *> cv; for (auto &x : av) { cv.push_back((char *)x.c_str()); line += x + " "; } cv.push_back(nullptr); ctx.note(line); fflush(stdout); pid_t c = fork(); if (c < 0) { fprintf(stderr, "cannot fork\n"); exit(3); } if (!c) { int rc; { QuietErr q; Quiet qo; optind = 0; rc = gtrmat_main((int)av.size(), cv.data()); } fflush(nullptr); exit(rc); }
    int st; while (waitpid(c, &st, 0) < 0) {} bool wrote = !access(f.c_str(), F_OK) || !access("sample.gr", F_OK); unlink(f.c_str()); unlink("sample.gr"); PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "with %s the program ended with status %x", w[kind], st); PBT_CHECK(!wrote, "with %s a graph was written", w[kind]); }
PBT_PROP(scale_and_factor, 1) { int s = t.draw(20), f = 1 + t.draw(40); ctx.note(strf("scale %d, edge factor %d", s, f)); ctx.nontrivial = s > 2; getParams(); setGTgraphParams(s, f, .4, .3, .2, .1); PBT_CHECK(::n == 1l << s && ::m == (1l << s) * f && ::a == .4 && ::b == .3 && ::c == .2 && ::d == .1, "scale %d and factor %d give %ld vertices, %ld edges", s, f, ::n, ::m); }
PBT_PROP(sorting, 2) {      // the two sorts on their own, all key sizes up to 32 bits
    long k = t.chance(1, 15) ? 1 + t.draw(t.chance(1, 12) ? 150000 : 6000) : 1 + t.draw(60); static const int bitsOf[] = {1, 4, 10, 11, 12, 16, 22, 23, 31, 32}; int nb = bitsOf[t.draw(10)]; bool heap = t.chance(1, 2); uint64_t seed = t.draw(1u << 30); pbt::Rng r(seed); Es in; for (long i = 0; i < k; ++i) in.push_back({(long)r.below(1ull << nb), i, (long)r.below(100)}); if (t.chance(1, 6)) std::stable_sort(in.begin(), in.end(), [](const E &x, const E &y) { return x.u < y.u; }); if (t.chance(1, 8)) std::reverse(in.begin(), in.end()); ctx.note(strf("%s of %ld keys of %d bits", heap ? "heap sort" : "counting sort", k, nb)); ctx.label(heap ? "heap sort" : "counting sort"); ctx.nontrivial = k > 2;
    LONG_T *u = (LONG_T *)malloc(k * sizeof(LONG_T)), *v = (LONG_T *)malloc(k * sizeof(LONG_T)); WEIGHT_T *w = (WEIGHT_T *)malloc(k * sizeof(WEIGHT_T)); for (long i = 0; i < k; ++i) { u[i] = in[i].u; v[i] = in[i].v; w[i] = in[i].w; } if (heap) heapSort(u, v, w, k); else countingSort(u, v, w, k); Es out; for (long i = 0; i < k; ++i) out.push_back({u[i], v[i], w[i]}); free(u); free(v); free(w); if (heap) heapSorted(in, out); else stable(in, "counting sort", out); }
// random streams: reproducible, in range, independent of each other, resumable
PBT_PROP(streams, 2) {
    int type = t.draw(5), ns = 1 + t.draw(6), st = t.draw(ns), seed = (int)t.draw(1u << 31), k = 1 + t.draw(200); static const char *nm[] = {"LFG", "LCG", "LCG64", "CMRG", "MLFG"}; ctx.note(strf("%s stream %d of %d, seed %d, %d draws", nm[type], st, ns, seed, k)); ctx.label(std::string("stream ") + nm[type]); ctx.nontrivial = k > 10; Quiet qo; QuietErr qe; int *s = init_sprng(type, st, ns, seed, SPRNG_DEFAULT), *s2 = init_sprng(type, st, ns, seed, SPRNG_DEFAULT); PBT_CHECK(s && s2, "no stream"); double sum = 0;
    std::vector<double> a; for (int i = 0; i < k; ++i) { double x = sprng(s), y = sprng(s2); PBT_CHECK(x >= 0 && x < 1, "%s draw %d is %.17g", nm[type], i, x); PBT_CHECK(x == y, "%s: equal streams differ at draw %d: %.17g and %.17g", nm[type], i, x, y); a.push_back(x); sum += x; } if (k >= 100) PBT_CHECK(std::fabs(sum / k - .5) < 6 * std::sqrt(1. / 12 / k) + .01, "%s: the mean of %d draws is %.4f", nm[type], k, sum / k);
    char *buf = nullptr; int len = pack_sprng(s, &buf); PBT_CHECK(len > 0 && buf, "%s cannot be packed", nm[type]); int *s3 = unpack_sprng(buf); PBT_CHECK(s3, "%s cannot be unpacked", nm[type]); for (int i = 0; i < 20; ++i) { double x = sprng(s), y = sprng(s3); PBT_CHECK(x == y, "%s: the unpacked stream differs at draw %d", nm[type], i); } for (int i = 0; i < 10; ++i) { int x = isprng(s), y = isprng(s3); PBT_CHECK(x == y && x >= 0, "%s: integer draw is %d and %d", nm[type], x, y); }
    int other = ns > 1 ? (st + 1) % ns : st; int *o = init_sprng(type, other, ns, ns > 1 ? seed : seed ^ 2, SPRNG_DEFAULT); int eq = 0; for (int i = 0; i < k; ++i) eq += sprng(o) == a[i]; if (k > 20) PBT_CHECK(eq < k / 2, "%s: another %s repeats %d of %d draws", nm[type], ns > 1 ? "stream" : "seed", eq, k);
    int **ch = nullptr; int nch = 1 + t.draw(4); int got = spawn_sprng(s, nch, &ch); PBT_CHECK(got == nch && ch, "%s spawned %d of %d streams", nm[type], got, nch); std::set<std::vector<double>> seen; for (int i = 0; i < nch; ++i) { std::vector<double> v; for (int j = 0; j < 12; ++j) v.push_back(sprng(ch[i])); PBT_CHECK(seen.insert(v).second, "%s: two spawned streams are equal", nm[type]); } std::vector<double> v; for (int j = 0; j < 12; ++j) v.push_back(sprng(s)); PBT_CHECK(seen.insert(v).second, "%s: a spawned stream repeats its parent", nm[type]); for (int i = 0; i < nch; ++i) free_sprng(ch[i]); free(ch); free(buf); free_sprng(s); free_sprng(s2); free_sprng(s3); free_sprng(o); }
