// C29: the multiplication programs (sample/, benchmarks/) on generated matrix files, or on graphs they generate themselves: every number
// they report is compared with the product computed from the definition. One program per binary: its main is compiled in under another
// name and called in a child process whose output is captured.
#include <omp.h>
#include <stdio.h>
#include <iostream>
#include <algorithm>
#include <numeric>
#include <functional>
#include <fstream>
#include <iterator>
#include <ctime>
#include <cmath>
#include <string>
#include <sstream>
#include <random>
#include <iomanip>
#include <cassert>
#include <cstring>
#include <cstdint>
#include <tuple>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#define main prog_main
#define STR_(x) #x
#define STR(x) STR_(x)
#include STR(PROG_FILE)
#undef main
#undef INDEXTYPE
#undef VALUETYPE
#undef ITERS
#include "gen.h"
using gen::HMat; using pbt::Tape; using pbt::Ctx; using pbt::strf; using pbt::RngSrc; using pbt::Src;
enum { HASH, HEAP, INNER, MHASH, MSPA, NUMA, OUTER1, OUTER2, POUTER, POUTER2, GENM, ALLTC, BLOCKTC, MALL, CMASK };
namespace pbt { double g_case_timeout = 60; const char *g_rule = "one case = one run of " STR(PROG_FILE) " in a child process: generated operands (and mask) written as coordinate text or binary files in random entry order, with or without values, or graphs the program generates itself (R-MAT, Erdos-Renyi), team size, repetitions and, for the outer products, a blocking; "
    "every reported operation count, entry count, ratio, printed value, checksum and written file is compared with the answer computed from the definition. Non-trivial: the product has at least two rows with entries and fewer entries than products, or its mask removes some; distinct by the list of generator draws"; }
typedef std::vector<std::map<int64_t, double>> Rows;
static const std::string &dir() { static std::string d; static pid_t who = 0; if (who != getpid()) { who = getpid(); const char *s = getenv("PBT_SCRATCH"); d = strf("%s/pg%d", s ? s : "/tmp", (int)who); mkdir(d.c_str(), 0755); mkdir((d + "/assets").c_str(), 0755); mkdir((d + "/sub").c_str(), 0755); } return d; }
static void put(const std::string &name, const std::string &s) { std::string p = dir() + "/" + name; FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) { fprintf(stderr, "cannot write the case file\n"); exit(3); } fclose(f); }
static std::string get(const std::string &name) { std::ifstream f(dir() + "/" + name); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void clearScratch() { std::string d = dir(); if (d.find("/pg") == std::string::npos) return; std::set<std::string> gone; for (auto sub : {std::string("/assets/"), std::string("/sub/"), std::string("/")}) { if (FILE *l = popen(("ls -A '" + d + sub + "' 2>/dev/null").c_str(), "r")) { char b[600]; while (fgets(b, sizeof b, l)) { std::string n(b); while (!n.empty() && n.back() == '\n') n.pop_back(); if (n != "assets" && n != "sub" && n != "." && n != "..") unlink((d + sub + n).c_str()); } pclose(l); } } }
struct Entry { int64_t r, c; double v; };
static std::vector<Entry> entries(Tape &t, const HMat &m) { std::vector<Entry> e; for (int64_t i = 0; i < m.r; ++i) for (int64_t k = m.ptr[i]; k < m.ptr[i + 1]; ++k) e.push_back({i, m.col[k], (double)m.val[k]}); if (t.chance(1, 2)) { RngSrc s(t.draw(0)); for (size_t k = e.size(); k > 1; --k) std::swap(e[k - 1], e[s.draw(k)]); } return e; }
static void text(Tape &t, const std::string &name, HMat &m) {
    bool vals = !t.chance(1, 4); if (!vals) for (auto &v : m.val) v = 1; auto e = entries(t, m); bool head = t.chance(1, 3); std::string f = head ? std::string("%%MatrixMarket matrix coordinate ") + (vals ? "real" : "pattern") + " general\n" : ""; f += strf("%ld %ld %zu\n", (long)m.r, (long)m.c, e.size());
    for (auto &x : e) f += vals ? strf("%ld %ld %g\n", (long)x.r + 1, (long)x.c + 1, x.v) : strf("%ld %ld\n", (long)x.r + 1, (long)x.c + 1); put(name, f); }
static void binaryFile(Tape &t, const std::string &name, const HMat &m) { auto e = entries(t, m); int32_t h[3] = {(int32_t)m.r, (int32_t)m.c, (int32_t)e.size()}; std::string s((char *)h, sizeof h); for (auto &x : e) { int32_t r = x.r; s.append((char *)&r, 4); } for (auto &x : e) { int32_t c = x.c; s.append((char *)&c, 4); } for (auto &x : e) s.append((char *)&x.v, 8); put(name, s); }
static int childStatus = 0;
template<class F> static int child(F f) {
    fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) { fprintf(stderr, "cannot fork\n"); exit(3); }
    if (!p) { std::string d; { const char *s = getenv("PBT_SCRATCH"); d = strf("%s/pg%d", s ? s : "/tmp", (int)getppid()); } prctl(PR_SET_PDEATHSIG, SIGKILL); if (chdir(d.c_str())) _exit(3); int o = open("out", O_CREAT | O_TRUNC | O_WRONLY, 0644), e = open("err", O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(o, 1); dup2(e, 2); int rc = f(); std::cout.flush(); fflush(stdout); _exit(rc & 255); }
    int st; while (waitpid(p, &st, 0) < 0) {} return st; }
static std::string run(std::vector<std::string> args, int want = 0) {
    int st = child([&] { std::vector<char *> v; for (auto &a : args) v.push_back((char *)a.c_str()); v.push_back(nullptr); return prog_main((int)args.size(), v.data()); }); childStatus = st;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != want) { std::string e = get("err"); size_t p = e.find("ERROR:"); if (p == std::string::npos) p = e.find("runtime error"); if (p == std::string::npos) p = e.size() > 400 ? e.size() - 400 : 0; pbt::fail("the program ended with status %x instead of %d: %s", st, want, e.substr(p, 700).c_str()); }
    return get("out"); }
// graphs the program makes itself: the generator called the same way
static std::vector<HMat> generated(bool rmat, int scale, int ef) {
    int st = child([&] { double a = rmat ? 0.57 : 0.25, b = rmat ? 0.19 : 0.25, d = rmat ? 0.05 : 0.25; getParams(); setGTgraphParams(scale, ef, a, b, b, d); FILE *f = fopen("graphs", "w"); for (int g = 0; g < 2; ++g) { graph G; graphGen(&G); fprintf(f, "%ld %ld\n", (long)G.n, (long)G.m); for (long i = 0; i < G.m; ++i) fprintf(f, "%ld %ld %ld\n", (long)G.start[i], (long)G.end[i], (long)G.w[i]); } fclose(f); return 0; });
    PBT_CHECK(st == 0, "the graph generator ended with status %x", st); std::vector<HMat> r; std::ifstream in(dir() + "/graphs");
    for (int g = 0; g < 2; ++g) { long n = -1, m = -1, x, y, w; in >> n >> m; PBT_CHECK(n == (1l << scale) && m == n * ef, "the generator made %ld vertices and %ld edges for scale %d and edge factor %d", n, m, scale, ef); Rows rows(n); for (long i = 0; i < m; ++i) { in >> x >> y >> w; PBT_CHECK(in && x >= 0 && x < n && y >= 0 && y < n, "edge %ld %ld", x, y); rows[x][y] += w; } HMat h; h.r = h.c = n; for (auto &row : rows) { for (auto &e : row) { h.col.push_back(e.first); h.val.push_back((int64_t)e.second); } h.ptr.push_back(h.nnz()); } r.push_back(h); }
    return r; }
static Rows product(const HMat &a, const HMat &b, int64_t from = 0, int64_t to = -1) { if (to < 0) to = a.r; Rows c(to - from); for (int64_t i = from; i < to; ++i) for (int64_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) for (int64_t j = b.ptr[a.col[k]]; j < b.ptr[a.col[k] + 1]; ++j) c[i - from][b.col[j]] += (double)a.val[k] * (double)b.val[j]; return c; }
static Rows masked(const Rows &c, const HMat &m, bool complement) { Rows r(c.size()); for (size_t i = 0; i < c.size(); ++i) { std::set<int64_t> in(m.col.begin() + m.ptr[i], m.col.begin() + m.ptr[i + 1]); for (auto &e : c[i]) if (in.count(e.first) != complement) r[i].insert(e); } return r; }
static int64_t count(const Rows &c) { int64_t n = 0; for (auto &r : c) n += r.size(); return n; }
static int64_t products(const HMat &a, const HMat &b, int64_t from = 0, int64_t to = -1) { int64_t n = 0; if (to < 0) to = a.r; for (int64_t k = a.ptr[from]; k < a.ptr[to]; ++k) n += b.ptr[a.col[k] + 1] - b.ptr[a.col[k]]; return n; }
static double total(const Rows &c) { double s = 0; for (auto &r : c) for (auto &e : r) s += e.second; return s; }
// reading the report
static std::vector<std::string> lines(const std::string &out) { std::vector<std::string> v; std::istringstream is(out); std::string l; while (std::getline(is, l)) v.push_back(l); return v; }
static std::vector<std::vector<double>> after(const std::string &out, const std::string &what, size_t n, const std::string &prefix = "") {     // the n numbers of every line with this text, the first one right after it
    std::vector<std::vector<double>> r; for (auto &l : lines(out)) { if (l.compare(0, prefix.size(), prefix) != 0) continue; size_t p = l.find(what); if (p == std::string::npos) continue; std::string s = l.substr(p + what.size()); std::vector<double> v; const char *c = s.c_str(); while (*c && v.size() < n) { char *e; if (((*c >= '0' && *c <= '9') || (*c == '-' && c[1] >= '0' && c[1] <= '9')) ) { v.push_back(strtod(c, &e)); c = e; } else if (!strncmp(c, "inf", 3) || !strncmp(c, "nan", 3) || !strncmp(c, "-nan", 4)) { v.push_back(NAN); c += 3; } else ++c; } r.push_back(v); }
    return r; }
static void one(const std::string &out, const std::string &what, int64_t want, size_t times = 1) { auto v = after(out, what, 1); PBT_CHECK(v.size() == times, "%zu lines with '%s' instead of %zu", v.size(), what.c_str(), times); for (auto &x : v) PBT_CHECK(x.size() == 1 && x[0] == (double)want, "'%s' reports %.0f, it is %ld", what.c_str(), x.empty() ? NAN : x[0], (long)want); }
static void report(const std::string &out, const std::string &name, int64_t nnz, int64_t prods, int64_t outOf, const std::vector<int> &teams) {     // "NAME returned with N nonzeros. Compression ratio is R", "NAME with T threads"
    auto v = after(out, name + " returned with ", 2, name); PBT_CHECK(v.size() == teams.size(), "%zu results of %s instead of %zu", v.size(), name.c_str(), teams.size()); for (auto &x : v) { PBT_CHECK(x.size() == 2 && x[0] == (double)nnz, "%s reports %.0f entries, the product has %ld", name.c_str(), x.empty() ? NAN : x[0], (long)nnz); if (outOf > 0) { double want = (double)prods / (double)outOf; PBT_CHECK(std::fabs(x[1] - want) <= 2e-6 + 1e-6 * want, "%s reports a ratio of %g, it is %g", name.c_str(), x[1], want); } }
    auto w = after(out, name + " with ", 1, name); PBT_CHECK(w.size() == teams.size(), "%zu times of %s instead of %zu", w.size(), name.c_str(), teams.size()); for (size_t i = 0; i < w.size(); ++i) PBT_CHECK(w[i].size() == 1 && w[i][0] == teams[i], "%s reports %.0f threads, asked for %d", name.c_str(), w[i].empty() ? NAN : w[i][0], teams[i]); }
static void firstValues(const std::string &out, const Rows &c, bool ordered, size_t times) {    // the line of first values after "Evaluation of HashSpGEMM"
    auto ls = lines(out); size_t at = 0; while (at < ls.size() && ls[at].find("Evaluation of HashSpGEMM") == std::string::npos) ++at; PBT_CHECK(at + 1 < ls.size(), "no line of values"); std::istringstream is(ls[at + 1]); std::vector<double> v; double x; while (is >> x) v.push_back(x); size_t n = std::min<int64_t>(10, count(c)), k = 0; PBT_CHECK(v.size() == n, "%zu first values printed, the product has %ld entries: %s", v.size(), (long)count(c), ls[at + 1].c_str()); (void)times;
    for (auto &r : c) { if (k >= n) break; std::multiset<double> all; std::vector<double> ord; auto rd = [](double d) { std::ostringstream o; o << d; return atof(o.str().c_str()); }; for (auto &e : r) { all.insert(rd(e.second)); ord.push_back(rd(e.second)); } for (size_t i = 0; i < r.size() && k < n; ++i, ++k) { if (ordered) PBT_CHECK(v[k] == ord[i], "value %zu is printed as %g, it is %g", k, v[k], ord[i]); else { auto f = all.find(v[k]); PBT_CHECK(f != all.end(), "value %zu is printed as %g, which its row does not have", k, v[k]); all.erase(f); } } } }
static uint32_t fold(uint32_t s, const void *p, size_t bytes) { const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i + 1 < bytes; i += 2) { s += b[i] | b[i + 1] << 8; if (s > 0xffff) s = (s & 0xffff) + 1; } return s; }
template<class IT, class NT> static std::string sums(const Rows &c, bool ptr) { uint32_t v = 0, i = 0, p = 0; IT at = 0; for (auto &r : c) { p = fold(p, &at, sizeof at); for (auto &e : r) { NT x = (NT)(int64_t)e.second; IT j = e.first; v = fold(v, &x, sizeof x); i = fold(i, &j, sizeof j); } at += r.size(); } auto f = [](uint32_t s) { return std::to_string(~s & 0xffff); }; return (ptr ? f(p) + "|" : "") + f(v) + "|" + f(i); }
static std::vector<std::string> fields(const std::string &l) { std::vector<std::string> v(1); for (char c : l) { if (c == ',') v.push_back(""); else if (c != ' ') v.back() += c; } return v; }
static int team(Tape &t) { return t.chance(1, 3) ? 1 : 2 + (int)t.draw(t.chance(1, 4) ? 15 : 5); }
static void nonzero(HMat &m, bool positive) { for (auto &v : m.val) if (v == 0) v = 1; else if (positive && v < 0) v = -v; }
static void interesting(Ctx &ctx, const Rows &c, const Rows *m, int64_t prods) { int rows = 0; for (auto &r : c) rows += !r.empty(); ctx.nontrivial = rows >= 2 && (count(c) < prods || (m && count(*m) < count(c))); }

#if PROG == 12
// the matrix as a grid of files, one block each
PBT_PROP(blocked, 1) {
    clearScratch(); Tape &src = t; int g = 1 + t.draw(t.chance(1, 4) ? 4 : 3); std::vector<int64_t> cut{0}; int64_t n = 0; for (int i = 0; i < g; ++i) cut.push_back(n += t.range(1, t.chance(1, 4) ? 40 : 8)); HMat a = gen::genMat(src, n, n, t.range(1, 12) * n, {1, 8}, false); nonzero(a, false); if (t.chance(1, 2)) { HMat l; l.r = l.c = n; for (int64_t i = 0; i < n; ++i) { for (int64_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) if (a.col[k] < i) { l.col.push_back(a.col[k]); l.val.push_back(1); } l.ptr.push_back(l.nnz()); } a = l; }
    if (mkdir((dir() + "/blocks").c_str(), 0755) && errno != EEXIST) exit(3); bool slash = t.chance(1, 4); std::vector<std::vector<HMat>> b(g, std::vector<HMat>(g)); for (int i = 0; i < g; ++i) for (int j = 0; j < g; ++j) { HMat m; m.r = cut[i + 1] - cut[i]; m.c = cut[j + 1] - cut[j]; for (int64_t x = cut[i]; x < cut[i + 1]; ++x) { for (int64_t k = a.ptr[x]; k < a.ptr[x + 1]; ++k) if (a.col[k] >= cut[j] && a.col[k] < cut[j + 1]) { m.col.push_back(a.col[k] - cut[j]); m.val.push_back(a.val[k]); } m.ptr.push_back(m.nnz()); } text(t, strf("blocks/splitmatrix_%d_%d.mtx", i + 1, j + 1), m); b[i][j] = m; }
    int nt = team(t); ctx.note(strf("%d by %d blocks, %d threads, ", g, g, nt) + a.str(300)); ctx.label(strf("%d by %d", g, g));
    int64_t fl = 0, nz = 0, mk = 0; double tr = 0; std::vector<std::array<int64_t, 3>> each; std::multiset<std::string> want; for (int i = 0; i < g; ++i) for (int j = 0; j < g; ++j) for (int k = 0; k < g; ++k) { Rows c = product(b[i][k], b[k][j]), m = masked(c, b[i][j], false); int64_t f = 2 * products(b[i][k], b[k][j]); fl += f; nz += count(c); mk += count(m); tr += total(m); each.push_back({f, count(c), count(m)}); want.insert(strf("(%d,%d,%d) loop: HashSpGEMM %ld", i, j, k, (long)count(c))); want.insert(strf("(%d,%d,%d) loop: SPASpGEMM %ld %ld", i, j, k, (long)count(m), (long)total(m))); want.insert(strf("(%d,%d,%d) loop: innerSpGEMM_nohash %ld", i, j, k, (long)count(m))); want.insert(strf("(%d,%d,%d) loop: mxm_hash_mask %ld", i, j, k, (long)count(m))); want.insert(strf("flps[%d][%d][%d]: %ld", i, j, k, (long)f)); }
    ctx.nontrivial = mk > 0 && mk < nz && nz * 2 < fl;
    std::string out; { setenv("OMP_NUM_THREADS", std::to_string(nt).c_str(), 1); int st = child([&] { omp_set_num_threads(nt); std::string d = std::string(slash ? "./" : "") + "blocks", x = std::to_string(g); std::vector<std::string> av{"prog", d, x, x}; std::vector<char *> v; for (auto &s : av) v.push_back((char *)s.c_str()); v.push_back(nullptr); return prog_main(4, v.data()); }); std::string e = get("err"); size_t p = e.find("ERROR:"); PBT_CHECK(st == 0, "the program ended with status %x: %s", st, e.substr(p == std::string::npos ? 0 : p, 700).c_str()); out = get("out"); }
    one(out, "Total number of floating-point operations in SpGEMM (A * A): ", fl); one(out, "Total number of masked nnz outputs in SpGEMM (A * A): ", mk); one(out, "Total number of masked nnz outputs in InnerProductSpGEMM (A * A): ", mk); one(out, "Total number of triangles found by MaskedSpGEMM (L * L .* L): ", (int64_t)tr);
    auto rep = [&](const char *name, int64_t nnz, int64_t outOf) { auto v = after(out, std::string(name) + " returned with ", 2, name); PBT_CHECK(v.size() == 1 && v[0].size() == 2 && v[0][0] == (double)nnz, "%s reports %.0f entries, there are %ld", name, v.empty() || v[0].empty() ? NAN : v[0][0], (long)nnz); if (outOf) PBT_CHECK(std::fabs(v[0][1] - fl / 2.0 / outOf) <= 2e-6 + 1e-6 * fl, "%s reports a ratio of %g, it is %g", name, v[0][1], fl / 2.0 / outOf); };
    rep("HashSpGEMM", nz, nz); rep("MaskedSPASpGEMM", mk, mk); rep("mxm_hash_mask", mk, mk); rep("InnerSpGEMM", mk, 0);
    std::multiset<std::string> got; for (auto &l : lines(out)) { int th, i, j, k; long x, y; if (sscanf(l.c_str(), "Thread %d out of %*d: flps[%d][%d][%d]: %ld", &th, &i, &j, &k, &x) == 5) got.insert(strf("flps[%d][%d][%d]: %ld", i, j, k, x)); else if (sscanf(l.c_str(), "Thread %d on (%d,%d,%d)", &th, &i, &j, &k) == 4) { PBT_CHECK(th >= 0 && th < nt, "thread %d of %d: %s", th, nt, l.c_str()); const char *r = strstr(l.c_str(), " loop: "); PBT_CHECK(r, "unreadable line %s", l.c_str()); char name[40]; const char *num = strstr(r, "return"); PBT_CHECK(sscanf(r, " loop: %39s", name) == 1 && num, "unreadable line %s", l.c_str()); int n = sscanf(num, "return%*s %ld nonzeros and %ld", &x, &y); PBT_CHECK(n >= 1, "unreadable line %s", l.c_str()); got.insert(n == 2 ? strf("(%d,%d,%d) loop: %s %ld %ld", i, j, k, name, x, y) : strf("(%d,%d,%d) loop: %s %ld", i, j, k, name, x)); } }
    for (auto &w : want) PBT_CHECK(got.count(w) == want.count(w), "the report lacks '%s'", w.c_str()); PBT_CHECK(got.size() == want.size(), "%zu block reports instead of %zu", got.size(), want.size());
    std::string csv = get(strf("timinglog_blocks_threads%d.csv", nt)); auto ls = lines(csv); PBT_CHECK(ls.size() == each.size() + 1, "the log file has %zu lines for %zu blocks", ls.size(), each.size()); for (size_t i = 0; i < each.size(); ++i) { long f = -1, m = -1; sscanf(ls[i + 1].c_str(), "%ld,%ld", &f, &m); PBT_CHECK(f == each[i][0] && m == each[i][2], "line %zu of the log file is '%s', the block has %ld operations and %ld entries", i + 1, ls[i + 1].c_str(), (long)each[i][0], (long)each[i][2]); } }
#else
static const bool usesGen = PROG == HASH || PROG == HEAP || PROG == MHASH || PROG == NUMA || PROG == OUTER1 || PROG == OUTER2 || PROG == POUTER || PROG == POUTER2 || PROG == GENM, outer = PROG == NUMA || PROG == OUTER1 || PROG == OUTER2 || PROG == POUTER || PROG == POUTER2, withMask = PROG == INNER || PROG == MSPA || PROG == MALL, square = PROG == MHASH || PROG == ALLTC || PROG == CMASK || PROG == OUTER2 || PROG == POUTER2;
PBT_PROP(program, 1) {
    clearScratch(); for (auto v : {"MODE", "INNER_ITERS", "OUTER_ITERS", "WARMUP_ITERS"}) unsetenv(v);
    if (t.chance(1, 64)) { ctx.label("too few arguments"); std::vector<std::string> a{"prog"}; if (t.chance(1, 2)) a.push_back("text"); std::string out = run(a, 255); PBT_CHECK(out.find("usage") != std::string::npos, "no usage message: %s", out.substr(0, 200).c_str()); return; }
    gen::ProblemOpts o; o.small = true; o.vs = {-8, 8}; o.nsemi = 1; gen::Problem p; std::vector<std::string> args{"prog"}; bool positive = PROG == CMASK; int kind = usesGen ? t.weighted({5, 3, 2}) : 0; std::string third = "p.txt", an = "a.mtx";
    if (kind == 2) { int scale = 1 + t.draw(t.chance(1, 8) ? 9 : 6), ef = 1 + t.draw(scale > 7 ? 4 : 12); bool rmat = t.chance(1, 2); auto g = generated(rmat, scale, ef); p.A = g[0]; p.B = g[1]; args.insert(args.end(), {"gen", rmat ? "rmat" : "er", std::to_string(scale), std::to_string(ef)}); ctx.label(rmat ? "R-MAT" : "Erdos-Renyi"); }
    else { p = gen::genProblem(t, o); if (square && p.A.r != p.A.c) { int64_t n = std::max<int64_t>(1, std::min<int64_t>(std::max(p.A.r, p.A.c), 250)); p.A = gen::genMat(t, n, n, 600, o.vs, false); p.B = p.A; } if (square) p.B = p.A; nonzero(p.A, positive); nonzero(p.B, positive); if (kind == 1) { ctx.label("binary"); if (!p.A.nnz() || !p.B.nnz()) throw pbt::Discard{"the binary format has no empty matrices"}; binaryFile(t, "a.bin", p.A); binaryFile(t, "b.bin", p.B); args.insert(args.end(), {"binary", "a.bin", "b.bin", third}); }
        else { ctx.label("text"); std::string pre = t.chance(1, 4) && PROG != GENM ? t.chance(1, 3) ? dir() + "/" : "./" : ""; static const char *names[] = {"a.mtx", "a", "a.b.mtx", "A-1.tar.mtx", ".a", "a."}; an = names[t.weighted({12, 4, 2, 1, 1, 1})]; text(t, an, p.A); std::string bn = t.chance(1, 6) ? "b" : "b.mtx"; if (PROG != GENM && t.chance(1, 8)) bn = "sub/" + an; if (square && PROG != MHASH) { p.B = p.A; bn = an; } else text(t, bn, p.B); if (usesGen) args.insert(args.end(), {"text", pre + an, pre + bn, third}); else if (withMask) { text(t, "m.mtx", p.M); args.insert(args.end(), {pre + an, pre + bn, pre + "m.mtx"}); } else args.push_back(pre + an); } }
    if (PROG == MHASH || PROG == ALLTC || PROG == CMASK) { p.B = p.A; p.M = p.A; }
    int nt = team(t); std::vector<int> teams{nt}; bool given = PROG == MALL || PROG == ALLTC || PROG == CMASK || PROG == GENM || outer || !t.chance(1, 40); if (given) args.push_back(std::to_string(nt)); else if (PROG == HASH || PROG == HEAP) teams = {32, 64}; else teams = {4, 8, 16, 32, 64};
    if (!given && usesGen && kind != 2 && t.chance(1, 2)) args.pop_back();      // without the name of the product as well
    int nb = 1 + t.draw(t.chance(1, 3) ? 60 : 8), bw = 1 + t.draw(t.chance(1, 3) ? 60 : 8); if (outer) { args.push_back(std::to_string(nb)); args.push_back(std::to_string(bw)); }
    { std::string l; for (auto &a : args) l += a + " "; ctx.note(l + "A=" + p.A.str(160) + " B=" + p.B.str(160) + (withMask ? " M=" + p.M.str(160) : "")); }
    const int64_t f = 2 * products(p.A, p.B); Rows c = product(p.A, p.B); const std::string ops = "Total number of floating-point operations including addition and multiplication in SpGEMM (A * "; (void)f;
#if PROG == 0
    interesting(ctx, c, nullptr, f / 2); std::string out = run(args); one(out, ops + "B): ", f); report(out, "HashSpGEMM", count(c), f / 2, count(c), teams); firstValues(out, c, true, teams.size());
#elif PROG == 1
    interesting(ctx, c, nullptr, f / 2); std::string out = run(args); one(out, ops + "B): ", f); report(out, "HeapSpGEMM", count(c), f / 2, count(c), teams);
#elif PROG == 2
    Rows m = masked(c, p.M, false); interesting(ctx, c, &m, f / 2); std::string out = run(args); one(out, ops + "A): ", f); report(out, "DotSpGEMM", count(m), f / 2, count(m), teams);
#elif PROG == 3
    Rows m = masked(c, p.M, false); interesting(ctx, c, &m, f / 2); std::string out = run(args); one(out, ops + "A): ", f); report(out, "mxm_hash_mask_wobin", count(m), f / 2, count(m), teams); report(out, "mxm_hash_mask", count(m), f / 2, count(m), teams); firstValues(out, c, false, teams.size());
#elif PROG == 4
    Rows m = masked(c, p.M, false); interesting(ctx, c, &m, f / 2); std::string out = run(args); one(out, ops + "A): ", f); report(out, "HashSpGEMM", count(c), f / 2, count(c), teams); one(out, "AB *. M has ", count(m), teams.size()); report(out, "MaskedSPASpGEMM", count(m), f / 2, count(m), teams); firstValues(out, c, false, teams.size());
#elif PROG == 5
    interesting(ctx, c, nullptr, f / 2); if (p.A.r < 2) throw pbt::Discard{"one row cannot be split"}; std::string out = run(args); one(out, ops + "B): ", f); one(out, "left non-zeros = ", p.A.ptr[p.A.r / 2]); one(out, "right non-zeros = ", p.A.nnz() - p.A.ptr[p.A.r / 2]); one(out, "OuterSpGEMM generated ", f / 2); one(out, "flops, returned with ", count(c));
#elif PROG == 6
    interesting(ctx, c, nullptr, f / 2); std::string out = run(args); one(out, ops + "B): ", f); one(out, "OuterSpGEMM generated ", f / 2); one(out, "flops, returned with ", count(c));
#elif PROG == 7 || PROG == 9
    interesting(ctx, c, nullptr, f / 2); std::string out = run(args); one(out, ops + "B): ", f); one(out, "Left matrix has ", p.A.nnz()); one(out, "right matrix has ", p.B.nnz()); one(out, "nrows ", p.A.r); one(out, "OuterSpGEMM generated ", f / 2); one(out, "flops, returned with ", count(c));
#elif PROG == 8
    if (p.A.r < 2) throw pbt::Discard{"one row cannot be split"}; int64_t half = p.A.r / 2; Rows h = product(p.A, p.B, 0, half); int64_t hp = products(p.A, p.B, 0, half); interesting(ctx, h, nullptr, hp); std::string out = run(args); one(out, ops + "B): ", 2 * hp); one(out, "Left matrix has ", p.A.nnz()); one(out, "right matrix has ", p.B.nnz()); one(out, "nrows ", p.A.r); one(out, "OuterSpGEMM generated ", hp); one(out, "flops, returned with ", count(h));
#elif PROG == 10
    interesting(ctx, c, nullptr, f / 2); std::string out = run(args); one(out, "Left matrix has ", p.A.nnz()); one(out, "right matrix has ", p.B.nnz()); one(out, "nrows ", p.A.r);
    for (int side = 0; side < 2; ++side) { const HMat &m = side ? p.B : p.A; std::string name = std::string("assets/") + (side ? "right_" : "left_") + args[2] + args[3] + "_" + args[4] + ".mtx"; auto ls = lines(get(name)); PBT_CHECK(ls.size() == 2 + (size_t)m.nnz() && ls[0] == "%%MatrixMarket matrix coordinate pattern general", "%s has %zu lines for %ld entries, the first is '%s'", name.c_str(), ls.size(), (long)m.nnz(), ls.empty() ? "" : ls[0].c_str()); PBT_CHECK(ls[1] == strf("%ld %ld %ld", (long)m.r, (long)m.c, (long)m.nnz()), "%s: size line '%s'", name.c_str(), ls[1].c_str());
        std::set<std::pair<long, long>> got, want; for (int64_t i = 0; i < m.r; ++i) for (int64_t k = m.ptr[i]; k < m.ptr[i + 1]; ++k) want.insert({i + 1, m.col[k] + 1}); for (size_t i = 2; i < ls.size(); ++i) { long x = 0, y = 0; sscanf(ls[i].c_str(), "%ld %ld", &x, &y); PBT_CHECK(want.count({x, y}) && got.insert({x, y}).second, "%s: line '%s' is not an entry of the matrix, or is there twice", name.c_str(), ls[i].c_str()); } }
#elif PROG == 11
    Rows m = masked(c, p.M, false); interesting(ctx, c, &m, f / 2); std::string out = run(args); one(out, ops + "A): ", f); for (auto n : {"MaskedSPASpGEMM", "DotSpGEMM", "mxm_hash_mask"}) report(out, n, count(m), f / 2, count(m), teams);
#elif PROG == 13
    Rows m = masked(c, p.M, false); interesting(ctx, c, &m, f / 2); int oi = t.chance(1, 4) ? 2 : 1, ii = t.chance(1, 4) ? 2 : 1; setenv("OUTER_ITERS", std::to_string(oi).c_str(), 1); setenv("INNER_ITERS", std::to_string(ii).c_str(), 1); std::string out = run(args); one(out, ops + "B): ", f, 10 * oi); std::string cs = sums<int, double>(m, false); size_t logs = 0; std::map<std::string, int> names;
    for (auto &l : lines(out)) { if (l.compare(0, 9, "Checksum:") == 0) PBT_CHECK(l == "Checksum: " + cs, "'%s', it is %s", l.c_str(), cs.c_str()); if (l.compare(0, 4, "LOG,") != 0) continue; auto v = fields(l); PBT_CHECK(v.size() >= 10, "unreadable report line: %s", l.c_str()); size_t n = v.size(); PBT_CHECK(v[1] == an, "the log names the file %s", v[1].c_str()); PBT_CHECK(atoi(v[n - 5].c_str()) == teams[logs % teams.size()], "the log line for %d threads says %s", teams[logs % teams.size()], v[n - 5].c_str()); PBT_CHECK(atoll(v[n - 2].c_str()) == count(m), "%s reports %s entries, the masked product has %ld", v[2].c_str(), v[n - 2].c_str(), (long)count(m)); PBT_CHECK(v[n - 1] == cs, "%s reports the checksum %s, it is %s", v[2].c_str(), v[n - 1].c_str(), cs.c_str()); ++names[l.substr(0, l.find(",i,d,"))]; ++logs; }
    PBT_CHECK(logs == 10 * oi * teams.size() && names.size() == 10, "%zu results of %zu algorithms instead of %zu of 10", logs, names.size(), 10 * oi * teams.size());
#else
    Rows m = masked(c, p.M, true); interesting(ctx, c, &m, f / 2); static const char *modes[] = {"all", "heap", "hash", "msa", "ALL", "Heap", "none"}; static const size_t algs[] = {14, 2, 4, 8, 14, 2, 0}; int mi = t.draw(7), oi = t.chance(1, 4) ? 2 : 1, ii = t.chance(1, 4) ? 2 : 1; setenv("MODE", modes[mi], 1); setenv("OUTER_ITERS", std::to_string(oi).c_str(), 1); setenv("INNER_ITERS", std::to_string(ii).c_str(), 1); if (t.chance(1, 4)) setenv("WARMUP_ITERS", "1", 1); ctx.label(modes[mi]); std::string out = run(args); std::string cs = sums<int64_t, uint64_t>(m, true); size_t logs = 0; std::set<std::string> names;
    for (auto &l : lines(out)) { if (l.compare(0, 4, "LOG,") != 0) continue; auto v = fields(l); size_t n = v.size(); PBT_CHECK(n >= 10, "unreadable report line: %s", l.c_str()); PBT_CHECK(v[1] == an, "the log names the file %s", v[1].c_str()); PBT_CHECK(atoi(v[n - 6].c_str()) == nt, "the log line for %d threads says %s", nt, v[n - 6].c_str()); PBT_CHECK(atoll(v[n - 3].c_str()) == count(m) && v[n - 2] == std::to_string((uint64_t)total(m)) && v[n - 1] == cs, "'%s': the complemented product has %ld entries, sum %.0f, checksum %s", l.c_str(), (long)count(m), total(m), cs.c_str()); std::string nm; for (size_t i = 2; i + 7 < n; ++i) nm += v[i]; names.insert(nm); ++logs; }
    PBT_CHECK(logs == algs[mi] * oi && names.size() == algs[mi], "%zu results of %zu algorithms instead of %zu of %zu", logs, names.size(), algs[mi] * oi, algs[mi]);
#endif
}
#endif
