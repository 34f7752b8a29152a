// C28: GTgraph's random-graph (GT == 1: G(n,p), G(n,m)) and SSCA#2 (GT == 2) generators through their functions and programs.
#include <vector>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <string>
#include <cstring>
#include <tuple>
#include <numeric>
#include <unistd.h>
#include <getopt.h>
#include <sys/wait.h>
extern "C" {
#if GT == 1
#include "GTgraph/random/graph.h"
#include "GTgraph/random/init.h"
#else
#include "GTgraph/SSCA2/graph.h"
#include "GTgraph/SSCA2/init.h"
#endif
}
#undef bits
extern "C" int gt_main(int, char **);
#include "pbt.h"
#include "quiet.h"
using pbt::Tape; using pbt::Ctx; using pbt::strf;
namespace pbt { double g_case_timeout = 25; const char *g_rule =
#if GT == 1
    "one case = one random graph: G(n,p) (1-120 vertices, p from 0 to 1) or G(n,m) (2-3000 vertices, 0-12000 edges), weights, self loops, kept in memory, sorted by counting or by heap, written on the fly, or made by the program from a config file or options. "
    "Checked: counts, ranges, no repeated pair in G(n,p), frequencies within 6 standard deviations, the same graph by every way. "
#else
    "one case = one SSCA#2 graph (1-600 vertices, cliques of 1-40, every share of one-way pairs, inter-clique probability 0 to 0.9, 1-8 parallel edges) kept in memory, sorted by counting or by heap, or made by the program from a config file or a scale. "
    "Checked: ranges, no self loops, at most the given parallel edges, without inter-clique edges a disjoint union of cliques not larger than allowed with every pair joined (one way or both as asked), the log's counts, the same graph by every way. "
#endif
    "Non-trivial: at least 20 edges; distinct by the list of generator draws"; }
struct QuietAll { Quiet q; int fd; QuietAll() { fflush(stderr); fd = dup(2); if (getenv("PBT_LOUD")) return; int x = open("/dev/null", O_WRONLY); dup2(x, 2); close(x); } ~QuietAll() { fflush(stderr); dup2(fd, 2); close(fd); } };
static void scratch() { static pid_t who = 0; if (who == getpid()) return; who = getpid(); const char *s = getenv("PBT_SCRATCH"); std::string d = strf("%s/gt%d", s ? s : "/tmp", (int)who); std::string cmd = "mkdir -p " + d; if (system(cmd.c_str()) || chdir(d.c_str())) { fprintf(stderr, "no scratch directory\n"); exit(3); } }
struct E { long u, v, w; bool operator==(const E &o) const { return u == o.u && v == o.v && w == o.w; } bool operator<(const E &o) const { return std::tie(u, v, w) < std::tie(o.u, o.v, o.w); } };
typedef std::vector<E> Es;
static Es take(graph &g) { Es e(g.m); for (long i = 0; i < g.m; ++i) e[i] = {g.start[i], g.end[i], g.w[i]}; free(g.start); free(g.end); free(g.w); return e; }
static void weight(const char *how, long w, long lo, long hi) { PBT_CHECK(w >= lo && (w < hi || w == lo), "%s: weight %ld outside [%ld,%ld)", how, w, lo, hi); }
static Es parse(const std::string &f, long n, long lo, long hi, long *cm = nullptr) { std::ifstream in(f); PBT_CHECK(in.good(), "no file %s", f.c_str()); Es e; std::string l; long pm = -1, x, y, z; int pl = 0;
    while (std::getline(in, l)) { if (l.find_first_not_of(" \r") == std::string::npos) continue;
        if (l[0] == 'c') { if (sscanf(l.c_str(), "c No. of vertices : %ld", &x) == 1) PBT_CHECK(x == n, "the file says '%s' for %ld vertices", l.c_str(), n); if (cm && (sscanf(l.c_str(), "c No. of directed edges : %ld", &x) == 1 || sscanf(l.c_str(), "c No. of edges : %ld", &x) == 1)) *cm = x;
            if (sscanf(l.c_str(), "c Max. weight : %ld", &x) == 1) PBT_CHECK(x == hi, "the file says '%s'", l.c_str()); if (sscanf(l.c_str(), "c Min. weight : %ld", &x) == 1) PBT_CHECK(x == lo, "the file says '%s'", l.c_str()); continue; }
        if (sscanf(l.c_str(), "p sp %ld %ld", &x, &y) == 2) { PBT_CHECK(x == n && e.empty() && !pl++, "problem line '%s' for %ld vertices", l.c_str(), n); pm = y; continue; }
        char more; PBT_CHECK(sscanf(l.c_str(), "a %ld %ld %ld %c", &x, &y, &z, &more) == 3, "line '%.60s' is not an arc", l.c_str()); e.push_back({x - 1, y - 1, z}); }
    PBT_CHECK(pl == 1 && pm == (long)e.size(), "%d problem lines, %ld edges announced, %zu listed", pl, pm, e.size()); return e; }
static void same(const char *x, const Es &a, const char *y, const Es &b) { PBT_CHECK(a.size() == b.size(), "%s has %zu edges, %s %zu", x, a.size(), y, b.size()); for (size_t i = 0; i < a.size(); ++i) PBT_CHECK(a[i] == b[i], "edge %zu: %s has %ld-%ld weight %ld, %s has %ld-%ld weight %ld", i, x, a[i].u, a[i].v, a[i].w, y, b[i].u, b[i].v, b[i].w); }
static void ordered(const char *how, bool heap, const Es &plain, const Es &got) {
    Es s = plain; std::stable_sort(s.begin(), s.end(), [](const E &x, const E &y) { return x.u < y.u; }); if (!heap) { same("the sorted reference", s, how, got); return; }
    for (size_t i = 1; i < got.size(); ++i) PBT_CHECK(got[i - 1].u <= got[i].u, "%s: start %ld before %ld", how, got[i - 1].u, got[i].u); Es g = got; std::sort(s.begin(), s.end()); std::sort(g.begin(), g.end()); PBT_CHECK(s == g, "%s changed the edges", how); }
static int status(std::vector<std::string> av, Ctx &ctx) { std::vector<char *> cv; std::string line; for (auto &x : av) { cv.push_back((char *)x.c_str()); line += x + " "; } cv.push_back(nullptr); ctx.note(line); ctx.label("program");
    fflush(stdout); pid_t c = fork(); if (c < 0) { fprintf(stderr, "cannot fork\n"); exit(3); } if (!c) { int rc; { QuietAll q; optind = 0; rc = gt_main((int)av.size(), cv.data()); } fflush(nullptr); exit(rc); }     // a process of its own: ends as the program does
    int st; while (waitpid(c, &st, 0) < 0) {} return st; }
static void program(std::vector<std::string> av, Ctx &ctx) { int st = status(av, ctx); PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status %x", st); }
static std::string config(Tape &t, std::vector<std::string> ls) { for (size_t i = ls.size(); i > 1; --i) std::swap(ls[i - 1], ls[t.draw(i)]); std::string s; for (auto &l : ls) { if (t.chance(1, 8)) s += "# a comment\n"; s += l + "\n"; } return s; }
static void put(const char *f, const std::string &s) { std::ofstream o(f); o << s; }


#if GT == 1
struct P { int model; long n, m, lo, hi; double p; bool self; };
static std::string show(const P &p) { return strf("model %d: %ld vertices, %ld edges, p %.4f, weights [%ld,%ld)%s", p.model, p.n, p.m, p.p, p.lo, p.hi, p.self ? ", self loops" : ""); }
static P gen(Tape &t) { P p; p.model = t.draw(2); p.self = t.chance(1, 2); p.lo = t.draw(200); p.hi = p.lo + (t.chance(1, 8) ? 0 : 1 + t.draw(1000)); p.m = 0; p.p = 0;
    if (p.model == 0) { p.n = t.chance(1, 2) ? 1 + t.draw(8) : 1 + t.draw(120); if (t.chance(1, 80)) p.n = 120 + t.draw(500); p.p = t.chance(1, 10) ? 0 : t.chance(1, 8) ? 1 : t.draw(1001) / 1000.; }
    else { p.n = t.chance(1, 2) ? 2 + t.draw(12) : 2 + t.draw(3000); p.m = t.chance(1, 20) ? 0 : t.chance(1, 4) ? 3000 + t.draw(9000) : 1 + t.draw(400); if (t.chance(1, 60)) { p.n = t.chance(1, 2) ? 60000 + t.draw(20000) : 3000 + t.draw(2000000); p.m = t.chance(1, 2) ? 40000 + t.draw(60000) : 1 + t.draw(9000); } }
    return p; }
static void set(const P &p, int store, int sort, int type) { getParams(); GRAPH_MODEL = p.model; ::n = p.n; ::m = p.m; ::p = p.p; MAX_WEIGHT = p.hi; MIN_WEIGHT = p.lo; SELF_LOOPS = p.self; STORE_IN_MEMORY = store; SORT_EDGELISTS = sort; SORT_TYPE = type; }
static Es run(const P &p, int sort, int type) { set(p, 1, sort, type); graph g; { QuietAll q; graphGen(&g); } PBT_CHECK(g.n == p.n && g.m >= 0, "the graph says %ld vertices and %ld edges", g.n, g.m); return take(g); }
static void judge(const char *how, const P &p, const Es &e) {
    if (p.model == 1) PBT_CHECK((long)e.size() == p.m, "%s: %zu edges instead of %ld", how, e.size(), p.m);
    for (auto &x : e) { PBT_CHECK(x.u >= 0 && x.u < p.n && x.v >= 0 && x.v < p.n, "%s: edge %ld-%ld in a graph of %ld vertices", how, x.u, x.v, p.n); PBT_CHECK(p.self || x.u != x.v, "%s: self loop at %ld", how, x.u); weight(how, x.w, p.lo, p.hi); }
    auto share = [&](const char *w, double got, double cells, double pr) { PBT_CHECK(std::fabs(got - cells * pr) <= 6 * std::sqrt(cells * pr * (1 - pr)) + 1e-9 + (pr > 0 && pr < 1 ? 2 : 0), "%s: %.0f of %.0f %s, expected %.1f", how, got, cells, w, cells * pr); };
    if (p.model == 0) { std::set<std::pair<long, long>> s; for (auto &x : e) PBT_CHECK(s.insert({x.u, x.v}).second, "%s: pair %ld-%ld twice", how, x.u, x.v); double up = 0, down = 0, loop = 0; for (auto &x : e) (x.u < x.v ? up : x.u > x.v ? down : loop)++;
        double half = p.n * (p.n - 1) / 2.; share("pairs u<v", up, half, p.p); share("pairs u>v", down, half, p.p); if (p.self) share("self loops", loop, p.n, p.p); }
    else if (e.size() >= 3000) { double lowu = 0, lowv = 0; long h = p.n / 2; for (auto &x : e) lowu += x.u < h, lowv += x.v < h; share("starts in the lower half", lowu, (double)e.size(), (double)h / p.n); share("ends in the lower half", lowv, (double)e.size(), (double)h / p.n);
        if ((long)e.size() > 60 * p.n) { std::vector<char> a(p.n), b(p.n); for (auto &x : e) a[x.u] = b[x.v] = 1; for (long v = 0; v < p.n; ++v) PBT_CHECK(a[v] && b[v], "%s: vertex %ld of %ld never occurs among %zu edges", how, v, p.n, e.size()); } }
    if (e.size() >= 2000 && p.hi - p.lo >= 10) { double s = 0; for (auto &x : e) s += x.w; double d = p.hi - p.lo, mean = p.lo + (d - 1) / 2.; PBT_CHECK(std::fabs(s / e.size() - mean) <= 6 * d / std::sqrt(12. * e.size()) + 1, "%s: mean weight %.1f of [%ld,%ld)", how, s / e.size(), p.lo, p.hi); } }
PBT_PROP(random_graph, 4) {
    scratch(); P p = gen(t); int pick = t.draw(4); ctx.note(show(p)); ctx.label(p.model ? "G(n,m)" : "G(n,p)"); Es plain = run(p, 0, 0); judge("unsorted", p, plain); ctx.nontrivial = plain.size() >= 20;
    if (pick == 0) same("the first graph", plain, "the same graph again", run(p, 0, 0));
    else if (pick == 1) ordered("counting sort", false, plain, run(p, 1, 0));
    else if (pick == 2) ordered("heap sort", true, plain, run(p, 1, 1));
    else { set(p, 0, 0, 0); strcpy(OUTFILE, "fly.gr"); graph g; { QuietAll q; graphGen(&g); } long cm = -1; Es e = parse("fly.gr", p.n, p.lo, p.hi, &cm); unlink("fly.gr"); PBT_CHECK(cm == (long)e.size(), "the comment announces %ld edges, %zu follow", cm, e.size()); same("memory", plain, "the file written on the fly", e); ctx.label("on the fly"); } }
PBT_PROP(random_program, 2) {
    scratch(); P p = gen(t); bool cfg = t.chance(2, 3); int type = t.draw(2), sort = t.draw(2), store = sort ? 1 : t.draw(2); unlink("out.gr"); std::vector<std::string> av = {"GTgraph-random"};
    if (cfg) { put("c.cfg", config(t, {strf("GRAPH_MODEL %d", p.model), strf("n %ld", p.n), strf("m %ld", p.m), strf("p %.17g", p.p), strf("MAX_WEIGHT %ld", p.hi), strf("MIN_WEIGHT %ld", p.lo), strf("SELF_LOOPS %d", (int)p.self), strf("SORT_EDGELISTS %d", sort), strf("SORT_TYPE %d", type), strf("STORE_IN_MEMORY %d", store), "WRITE_TO_FILE 1"}));
        if (t.chance(1, 2)) av.insert(av.end(), {"-c", "c.cfg", "-o", "out.gr"}); else av.insert(av.end(), {"-o", "out.gr", "-c", "c.cfg"});
        if (t.chance(1, 3)) { static const char *more[] = {"-n", "-m", "-p", "-t"}; av.push_back(more[t.draw(4)]); av.push_back(strf("%d", (int)t.draw(2))); ctx.label("option after the config file"); } }
    else { p.lo = 0; p.hi = 100; p.self = false; sort = 1; type = 0; store = 1; std::vector<std::vector<std::string>> os = {{"-o", "out.gr"}, {"-n", std::to_string(p.n)}}; if (p.model) os.push_back({"-m", std::to_string(p.m)}); else os.push_back({"-p", strf("%.17g", p.p)}); for (size_t i = os.size(); i > 1; --i) std::swap(os[i - 1], os[t.draw(i)]); av.insert(av.end(), {"-t", std::to_string(p.model)}); for (auto &o : os) av.insert(av.end(), o.begin(), o.end()); }
    ctx.note(show(p) + strf(" sort %d/%d store %d; ", sort, type, store)); ctx.label(p.model ? "G(n,m)" : "G(n,p)"); program(av, ctx);
    long cm = -1; Es got = parse("out.gr", p.n, p.lo, p.hi, &cm); PBT_CHECK(cm == (long)got.size(), "the comment announces %ld edges, %zu follow", cm, got.size()); judge("program", p, got); ctx.nontrivial = got.size() >= 20; Es plain = run(p, 0, 0); if (!sort) same("the functions", plain, "the program", got); else ordered("the program", type, plain, got); }
#else
struct P { long n, mx, lo, hi, par; double uni, inter; };
static std::string show(const P &p) { return strf("%ld vertices, cliques to %ld, one way %.3f, inter %.3f, %ld parallel, weights [%ld,%ld)", p.n, p.mx, p.uni, p.inter, p.par, p.lo, p.hi); }
static double prob(Tape &t, double top) { return t.chance(1, 3) ? 0 : t.chance(1, 6) ? top : top * t.draw(1001) / 1000.; }
static P gen(Tape &t) { P p; p.n = t.chance(1, 2) ? 1 + t.draw(30) : 1 + t.draw(t.chance(1, 40) ? 20000 : 600); p.mx = t.chance(1, 3) ? 1 + t.draw(4) : 1 + t.draw(40); p.uni = prob(t, 1); p.inter = prob(t, .9); p.par = t.chance(1, 3) ? 1 : 1 + t.draw(8); p.lo = t.draw(200); p.hi = p.lo + (t.chance(1, 8) ? 0 : 1 + t.draw(1000)); return p; }
static void set(const P &p, int sort, int type) { getParams(); TotVertices = p.n; MaxCliqueSize = p.mx; MaxWeight = p.hi; MinWeight = p.lo; ProbUnidirectional = p.uni; ProbIntercliqueEdges = p.inter; MaxParallelEdges = p.par; SORT_EDGELISTS = sort; SORT_TYPE = type; strcpy(LOGFILE, "log"); }
struct Log { long clusters = -1, intra = -1, inter = -1, n = -1, m = -1; };
static Log readLog() { Log r; std::ifstream in("log"); std::string l; while (std::getline(in, l)) { sscanf(l.c_str(), "No. of clusters : %ld", &r.clusters); sscanf(l.c_str(), "No. of intra-cluster edges : %ld", &r.intra); sscanf(l.c_str(), "No. of inter-cluster edges : %ld", &r.inter); sscanf(l.c_str(), "No. of vertices : %ld", &r.n); sscanf(l.c_str(), "No. of edges : %ld", &r.m); } return r; }
static Es run(const P &p, int sort, int type, Log *lg = nullptr) { unlink("log"); set(p, sort, type); graph g; { QuietAll q; graphGen(&g); } PBT_CHECK(g.n == p.n && g.m >= 0, "the graph says %ld vertices and %ld edges", g.n, g.m); Es e = take(g); Log l = readLog(); PBT_CHECK(l.n == p.n && l.m == (long)e.size() && l.intra + l.inter == l.m && l.intra >= 0 && l.inter >= 0, "the log counts %ld vertices, %ld edges, %ld inside and %ld between clusters; there are %zu edges", l.n, l.m, l.intra, l.inter, e.size()); if (lg) *lg = l; return e; }
static void judge(const char *how, const P &p, const Es &e, const Log *lg) {
    for (auto &x : e) { PBT_CHECK(x.u >= 0 && x.u < p.n && x.v >= 0 && x.v < p.n, "%s: edge %ld-%ld in a graph of %ld vertices", how, x.u, x.v, p.n); PBT_CHECK(x.u != x.v, "%s: self loop at %ld", how, x.u); weight(how, x.w, p.lo, p.hi); }
    if (p.mx == 1 && lg) PBT_CHECK(lg->intra == 0 && lg->clusters == p.n, "%s: %ld edges inside %ld clusters of one vertex", how, lg->intra, lg->clusters);
    if (lg) PBT_CHECK(lg->clusters >= (p.n + p.mx - 1) / p.mx && lg->clusters <= p.n, "%s: %ld clusters of at most %ld cannot hold %ld vertices", how, lg->clusters, p.mx, p.n);
    if (p.inter > 0) return;
    std::vector<long> up(p.n); std::iota(up.begin(), up.end(), 0); auto root = [&](long x) { while (up[x] != x) x = up[x] = up[up[x]]; return x; }; std::map<std::pair<long, long>, long> mult; for (auto &x : e) { up[root(x.u)] = root(x.v); ++mult[{x.u, x.v}]; }
    std::map<long, std::vector<long>> comp; for (long v = 0; v < p.n; ++v) comp[root(v)].push_back(v); double pairs = 0, bothWays = 0;
    for (auto &c : mult) PBT_CHECK(c.second <= p.par, "%s: %ld parallel edges %ld-%ld", how, c.second, c.first.first, c.first.second);
    for (auto &c : comp) { PBT_CHECK((long)c.second.size() <= p.mx, "%s: a clique of %zu vertices", how, c.second.size());
        for (size_t i = 0; i < c.second.size(); ++i) for (size_t j = 0; j < i; ++j) { bool f = mult.count({c.second[i], c.second[j]}), b = mult.count({c.second[j], c.second[i]}); PBT_CHECK(f || b, "%s: %ld and %ld are in one clique without an edge", how, c.second[i], c.second[j]); ++pairs; bothWays += f && b; } }
    if (lg) PBT_CHECK(lg->clusters == (long)comp.size() && lg->inter == 0, "%s: the log says %ld clusters and %ld edges between them, there are %zu and none", how, lg->clusters, lg->inter, comp.size());
    double q = 1 - p.uni; PBT_CHECK(std::fabs(bothWays - pairs * q) <= 6 * std::sqrt(pairs * q * (1 - q)) + (q > 0 && q < 1 ? 2 : 0), "%s: %.0f of %.0f pairs joined both ways with one-way probability %.3f", how, bothWays, pairs, p.uni); }
PBT_PROP(ssca2, 4) {
    scratch(); P p = gen(t); int pick = t.draw(4); ctx.note(show(p)); ctx.label(p.inter > 0 ? "inter-clique edges" : "cliques only"); Log lg; Es plain = run(p, 0, 0, &lg); judge("unsorted", p, plain, &lg); ctx.nontrivial = plain.size() >= 20;
    if (p.inter > 0) { P q = p; q.inter = 0; Log l2; Es base = run(q, 0, 0, &l2); judge("without inter-clique edges", q, base, &l2); PBT_CHECK(l2.intra == lg.intra && l2.clusters == lg.clusters, "%ld edges inside %ld clusters, without inter-clique edges %ld inside %ld", lg.intra, lg.clusters, l2.intra, l2.clusters);
        long d = 0; while ((2l << d) <= p.n) ++d; PBT_CHECK(lg.inter <= p.n * std::max<long>(0, d - 1) * p.par, "%ld edges between clusters of %ld vertices", lg.inter, p.n); if (p.mx * 8 < p.n && p.n * p.inter > 60) PBT_CHECK(lg.inter > 0, "no edge between %ld clusters", lg.clusters); }
    if (pick == 0) same("the first graph", plain, "the same graph again", run(p, 0, 0));
    else if (pick == 1) ordered("counting sort", false, plain, run(p, 1, 0));
    else if (pick == 2) ordered("heap sort", true, plain, run(p, 1, 1)); }
PBT_PROP(ssca2_program, 2) {
    scratch(); P p = gen(t); bool cfg = t.chance(2, 3); int type = t.draw(2), sort = t.draw(2); std::string file = "out.gr"; unlink("out.gr"); unlink("log"); std::vector<std::string> av = {"GTgraph-ssca2"};
    if (cfg) { std::vector<std::string> size = {strf("TotVertices %ld", p.n), strf("MaxCliqueSize %ld", p.mx), strf("MaxWeight %ld", p.hi)}; if (t.chance(1, 4)) { int s = t.draw(t.chance(1, 20) ? 14 : 10); p.n = p.hi = 1l << s; p.mx = (long)std::floor(std::pow(2., s / 3.) + 1e-9); p.lo = std::min(p.lo, p.hi); size = {strf("SCALE %d", s)}; ctx.label("SCALE in the config file"); }
        std::vector<std::string> all = {strf("MinWeight %ld", p.lo), strf("ProbUnidirectional %.17g", p.uni), strf("ProbInterClEdges %.17g", p.inter), strf("MaxParallelEdges %ld", p.par), strf("SORT_EDGELISTS %d", sort), strf("SORT_TYPE %d", type), "WRITE_TO_FILE 1"}; all.insert(all.end(), size.begin(), size.end()); put("c.cfg", config(t, all));
        std::vector<std::string> o = {"-o", "out.gr"}, c = {"-c", "c.cfg"}; if (t.chance(1, 4)) { o = {"-s", strf("%d", (int)t.draw(9))}; ctx.label("scale and config file"); file = "sample.gr"; unlink("sample.gr"); }     // the config file wins over a scale before or after it
        if (t.chance(1, 2)) std::swap(o, c); av.insert(av.end(), o.begin(), o.end()); av.insert(av.end(), c.begin(), c.end()); }
    else { int s = t.draw(t.chance(1, 20) ? 14 : 10); p.n = 1l << s; p.mx = (long)std::floor(std::pow(2., s / 3.) + 1e-9); p.hi = p.n; p.lo = 0; p.uni = .2; p.inter = .5; p.par = 3; sort = 1; type = 0; if (t.chance(1, 2)) av.insert(av.end(), {"-s", std::to_string(s), "-o", "out.gr"}); else av.insert(av.end(), {"-o", "out.gr", "-s", std::to_string(s)}); }
    ctx.note(show(p) + strf(" sort %d/%d; ", sort, type)); program(av, ctx);
    long cm = -1; Es got = parse(file, p.n, p.lo, p.hi, &cm); PBT_CHECK(cm == (long)got.size(), "the comment announces %ld edges, %zu follow", cm, got.size()); judge("program", p, got, nullptr); ctx.nontrivial = got.size() >= 20; Es plain = run(p, 0, 0); if (!sort) same("the functions", plain, "the program", got); else ordered("the program", type, plain, got); }
#endif
PBT_PROP(refused, 1) {      // a command line the program cannot follow ends it in failure, and no graph is written
    scratch(); unlink("out.gr"); unlink("sample.gr"); int kind = t.draw(GT == 1 ? 4 : 3); static const char *w[] = {"a config file that is not there", "more arguments than it takes", "an option it does not know", "a size before the model"}; ctx.label("refused"); ctx.nontrivial = true; std::vector<std::vector<std::string>> o;
#if GT == 1
    std::vector<std::string> av = {"GTgraph-random"}; if (kind == 3) { o = {{t.chance(1, 2) ? "-n" : "-m", strf("%d", 2 + (int)t.draw(9))}}; if (t.chance(1, 2)) o.push_back({"-o", "out.gr"}); } else { o = {{"-t", "1"}, {"-n", "5"}}; if (kind) o.push_back({"-m", "7"}); if (kind == 1) o.insert(o.end(), {{"-o", "out.gr"}, {"-p", "0.5"}, {"-m", "3"}}); }
#else
    std::vector<std::string> av = {"GTgraph-ssca2"}; o = {{"-s", strf("%d", (int)t.draw(5))}}; if (kind == 1) { o.push_back({"-o", "out.gr"}); o.push_back({"-s", "2"}); }
#endif
    if (kind == 0) o.insert(o.begin() + t.draw(o.size() + 1), {"-c", "missing.cfg"}); if (kind == 2) o.insert(o.begin() + t.draw(o.size() + 1), {t.chance(1, 2) ? "-z" : "-q", "4"}); for (auto &x : o) av.insert(av.end(), x.begin(), x.end());
    int st = status(av, ctx); bool wrote = !access("out.gr", F_OK) || !access("sample.gr", F_OK); unlink("out.gr"); unlink("sample.gr"); PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "with %s the program ended with status %x", w[kind], st); PBT_CHECK(!wrote, "with %s a graph was written", w[kind]); }
PBT_PROP(sorting, 1) {      // the two sorts on their own, all key sizes up to 32 bits
    long k = t.chance(1, 15) ? 1 + t.draw(t.chance(1, 12) ? 150000 : 6000) : 1 + t.draw(60); static const int bitsOf[] = {1, 4, 10, 11, 12, 16, 22, 23, 31, 32}; int nb = bitsOf[t.draw(10)]; bool heap = t.chance(1, 2); uint64_t seed = t.draw(1u << 30); pbt::Rng r(seed); Es in; for (long i = 0; i < k; ++i) in.push_back({(long)r.below(1ull << nb), i, (long)r.below(100)});
    ctx.note(strf("%s sort of %ld keys of %d bits (seed %ld)", heap ? "heap" : "counting", k, nb, (long)seed)); ctx.label("sorting"); ctx.nontrivial = k >= 20; LONG_T *u = (LONG_T *)malloc(k * sizeof(LONG_T)), *v = (LONG_T *)malloc(k * sizeof(LONG_T)); WEIGHT_T *w = (WEIGHT_T *)malloc(k * sizeof(WEIGHT_T)); for (long i = 0; i < k; ++i) { u[i] = in[i].u; v[i] = in[i].v; w[i] = in[i].w; }
    if (heap) heapSort(u, v, w, k); else countingSort(u, v, w, k); Es out; for (long i = 0; i < k; ++i) out.push_back({u[i], v[i], w[i]}); free(u); free(v); free(w); ordered(heap ? "heap sort" : "counting sort", heap, in, out); }
