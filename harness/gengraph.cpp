// C24, first half: PaRMAT (in memory, to a file, sorted; through the API and through its command line) and its queue and gate.
#include <vector>
#include <thread>
#include <atomic>
#include <random>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <string>
#include <cstring>
#include "PaRMAT/src/GraphGen_sorted.hpp"
#include "PaRMAT/src/GraphGen_notSorted.hpp"
#include "PaRMAT/src/threadsafe_queue.hpp"
#include "PaRMAT/src/capacity_controller.hpp"
#include "pbt.h"
#include "quiet.h"
using pbt::Tape; using pbt::Ctx; using pbt::strf;
// every source of randomness of the generator is a function of the case
static std::atomic<uint64_t> g_seed{1}, g_ctr{0};
std::random_device::result_type std::random_device::_M_getval() { return (unsigned)pbt::mix64(g_seed * 0x9E3779B97F4A7C15ull + ++g_ctr); }
extern "C" int rand(void) noexcept { return (int)(pbt::mix64(g_seed * 31 + 7 * ++g_ctr) & 0x7fffffff); }
extern "C" void srand(unsigned) noexcept {}
int parmat_main(int, char **);
namespace pbt { double g_case_timeout = 25; const char *g_rule =
    "one case = one generated graph: PaRMAT in memory, to a file or sorted, through its functions (1-400000 edges, 2-5000 vertices, 1-9 workers, capacities from a quarter of the edges up, all combinations of self loops, duplicates and direction, probabilities uniform to skewed) or its command line; or GTgraph's R-MAT in memory, sorted either way, on the fly, by config file and options; or a sequence of draws of its random streams; or a command line that must be refused; or a concurrent history of the worker queue or the capacity gate. "
    "Sizes leave room for the edges asked for (no duplicates: at most a sixth of the cells of a single square and one 300th of the cells when squares are split). Non-trivial: at least 20 edges and either an option other than the default or more than one worker; histories: at least two threads. Distinct by the list of generator draws"; }
typedef std::vector<std::pair<int64_t, int64_t>> Edges;
static std::string path() { return std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp") + "/gg" + std::to_string(getpid()); }
static Edges parse(const std::string &f) { std::ifstream in(f); Edges e; std::string l; while (std::getline(in, l)) { std::istringstream s(l); long long u, v; std::string rest; PBT_CHECK(s >> u >> v && !(s >> rest), "line '%.60s' of the output is not an edge", l.c_str()); PBT_CHECK(l.find('-') == std::string::npos, "negative vertex in '%.60s'", l.c_str()); e.push_back({u, v}); } return e; }
struct Par { int fn; uint64_t last, ne; double a, b, c; unsigned threads; uint64_t cap; bool self, dup, dir; };
static void verify(const Par &p, const Edges &e, bool sorted) {
    PBT_CHECK(e.size() == p.ne, "%zu edges instead of the %llu requested", e.size(), (unsigned long long)p.ne);
    for (auto &x : e) PBT_CHECK(x.first >= 0 && x.first <= (int64_t)p.last && x.second >= 0 && x.second <= (int64_t)p.last, "edge %ld-%ld, but the last vertex is %llu", (long)x.first, (long)x.second, (unsigned long long)p.last);
    if (!p.self) for (auto &x : e) PBT_CHECK(x.first != x.second, "self loop at %ld", (long)x.first);
    if (!p.dir) { std::set<std::pair<int64_t, int64_t>> s(e.begin(), e.end()); for (auto &x : e) PBT_CHECK(x.first == x.second || !s.count({x.second, x.first}), "undirected graph holds %ld-%ld in both directions", (long)x.first, (long)x.second); }
    if (!p.dup) { Edges s = e; std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); ++i) PBT_CHECK(s[i] != s[i - 1], "edge %ld-%ld occurs twice", (long)s[i].first, (long)s[i].second); }
    if (sorted) for (size_t i = 1; i < e.size(); ++i) PBT_CHECK(e[i - 1] <= e[i], "sorted output has %ld-%ld before %ld-%ld", (long)e[i - 1].first, (long)e[i - 1].second, (long)e[i].first, (long)e[i].second);
    if (p.self && p.dup && p.dir && p.ne >= 3000 && p.last >= 255) {    // share of sources (destinations) in the lower half
        double n = p.ne, half = p.last / 2.0, s = 0, d = 0; for (auto &x : e) { s += x.first == half ? .5 : x.first < half; d += x.second == half ? .5 : x.second < half; }
        auto share = [&](const char *w, double got, double want) { double tol = 6 * std::sqrt(want * (1 - want) / n) + 0.03; PBT_CHECK(std::fabs(got / n - want) < tol, "%.4f of the %s lie in the lower half, expected %.4f +- %.4f", got / n, w, want, tol); };
        share("sources", s, p.a + p.c); share("destinations", d, p.a + p.b); }
    if (p.self && p.dup && p.dir && std::fabs(p.a - .25) + std::fabs(p.b - .25) + std::fabs(p.c - .25) < 1e-9 && p.ne >= 120 * (p.last + 1)) {   // uniform: every vertex shows up
        std::vector<char> s(p.last + 1), d(p.last + 1); for (auto &x : e) s[x.first] = d[x.second] = 1; for (uint64_t v = 0; v <= p.last; ++v) PBT_CHECK(s[v] && d[v], "vertex %llu of %llu never occurs as %s among %llu uniform edges", (unsigned long long)v, (unsigned long long)p.last, s[v] ? "a destination" : "a source", (unsigned long long)p.ne); } }
static void probs(Tape &t, Par &p, bool mild) {
    switch (t.draw(4)) { case 0: p.a = p.b = p.c = .25; break; case 1: p.a = .45; p.b = .22; p.c = .22; if (mild) p.b = p.c = .2; break; case 2: if (!mild) { p.a = .57; p.b = .19; p.c = .19; break; } [[fallthrough]];
        default: { double w[4]; for (double &x : w) x = 2 + t.draw(mild ? 4 : 20); double s = w[0] + w[1] + w[2] + w[3]; p.a = w[0] / s; p.b = w[1] / s; p.c = w[2] / s; double d = 1 - p.a - p.b - p.c, lo = mild ? .1 : .03; if (std::min(std::min(p.a, p.b), std::min(p.c, d)) < lo || (mild && std::max(std::max(p.a, p.b), std::max(p.c, d)) > .45)) p.a = p.b = p.c = .25; } } }
static std::string show(const Par &p) { static const char *f[] = {"memory", "file", "sorted"}; return strf("%s: %llu edges, last vertex %llu, a %.3f b %.3f c %.3f, %u workers, capacity %llu%s%s%s", f[p.fn], (unsigned long long)p.ne, (unsigned long long)p.last, p.a, p.b, p.c, p.threads, (unsigned long long)p.cap, p.self ? "" : ", no self loops", p.dup ? "" : ", no duplicates", p.dir ? "" : ", undirected"); }
PBT_PROP(generate, 6) {
    Par p; p.fn = t.draw(3); p.self = !t.chance(1, 2); p.dup = !t.chance(1, 2); p.dir = !t.chance(1, 2); bool split = t.chance(2, 3); g_seed = t.draw(1u << 30); g_ctr = 0; int hiE = t.chance(1, 12) ? 60000 : 6000;
    bool far = t.chance(1, 25); uint64_t wide = !far ? 0 : t.chance(1, 3) ? 65000 + t.draw(2000) : t.chance(1, 2) ? 65000 + t.draw(5000000) : 2000000000 + t.draw(2290000000);     // vertices beyond 2^16 and 2^31 (EdgeIndexType has 32 bits)
    if (!split) { p.threads = 1; p.last = far ? wide : 1 + t.draw(t.chance(1, 4) ? 2000 : 60); probs(t, p, !p.dup); double cells = double(p.last + 1) * (p.last + 1) / (p.dir ? 1 : 2) - (p.self ? 0 : p.last + 1); uint64_t mx = p.dup ? hiE : std::max<uint64_t>(1, std::min<double>(cells / 6, hiE)); p.ne = 1 + t.draw(mx); if (t.chance(1, 5)) p.ne = mx; p.cap = t.chance(1, 4) ? p.ne : p.ne + t.draw(1000); if (cells < 1) { p.self = true; } }
    else { p.threads = 1 + t.draw(9); bool roomy = !p.self || !p.dup; if (t.chance(1, 3)) p.threads = 1; probs(t, p, roomy); p.ne = roomy ? 200 + t.draw(hiE) : 1 + t.draw(hiE); p.last = roomy ? (uint64_t)std::ceil(std::sqrt(300.0 * p.ne)) + t.draw(4000) : 1 + t.draw(t.chance(1, 2) ? 100 : 3000); if (far) p.last = std::max(p.last, wide); switch (t.draw(4)) { case 0: p.cap = p.ne; break; case 1: p.cap = std::max<uint64_t>(1, p.ne / (1 + t.draw(8))); break; case 2: p.cap = std::max<uint64_t>(1, p.ne / 8) + t.draw(p.ne); break; default: p.cap = 1000000; }
        if (p.cap < p.ne) { if (!roomy) { probs(t, p, true); p.last += 1000; } p.cap = std::max(p.cap, p.ne / 4 + 60); } }   // splitting for capacity needs columns to split: the densest half holds at most 0.8 of the edges, so 7 levels do
    ctx.note(show(p)); static const char *f[] = {"memory", "file", "sorted"}; ctx.label(f[p.fn]); if (!p.dir) ctx.label("undirected"); if (!p.dup) ctx.label("no duplicates"); if (!p.self) ctx.label("no self loops"); if (p.threads > 1) ctx.label("parallel"); if (p.cap < p.ne) ctx.label("capacity below edges"); ctx.nontrivial = p.ne >= 20 && (p.threads > 1 || !p.self || !p.dup || !p.dir || p.fn == 2 || p.cap < p.ne);
    Edges e; if (p.fn == 0) { Quiet q; e = GraphGen_notSorted::GenerateGraph(p.ne, p.last, p.a, p.b, p.c, p.threads, p.cap, p.self, p.dup, p.dir); }
    else { std::string fn = path(); { std::ofstream out(fn); PBT_CHECK(out.good(), "cannot write"); Quiet q; if (p.fn == 1) GraphGen_notSorted::GenerateGraph(p.ne, p.last, p.a, p.b, p.c, p.threads, out, p.cap, p.self, p.dup, p.dir); else GraphGen_sorted::GenerateGraph(p.ne, p.last, p.a, p.b, p.c, p.threads, out, p.cap, p.self, p.dup, p.dir); } e = parse(fn); unlink(fn.c_str()); }
    verify(p, e, p.fn == 2); }
PBT_PROP(command_line, 2) {
    Par p; p.fn = t.chance(1, 2) ? 2 : 1; p.self = !t.chance(1, 2); p.dup = !t.chance(1, 2); p.dir = !t.chance(1, 2); g_seed = t.draw(1u << 30); g_ctr = 0; uint64_t nv; bool big = t.chance(1, 6); p.cap = 0; p.threads = 0;
    if (big) { p.ne = 10000 + t.draw(4000); nv = p.dup && p.self ? 150 + t.draw(3000) : 2000 + t.draw(3000); probs(t, p, true); } else { nv = 4 + t.draw(90); probs(t, p, !p.dup); p.ne = 1 + t.draw(std::max<uint64_t>(1, p.dup ? nv * nv - 1 : nv * (nv - 2) / 13)); } bool dflt = !big && t.chance(1, 4); if (dflt) { p.a = .45; p.b = p.c = .22; }
    p.last = nv - 1; std::string fn = path(); std::vector<std::string> av = {"PaRMAT"}; std::vector<std::vector<std::string>> opt = {{"-nEdges", std::to_string(p.ne)}, {"-nVertices", std::to_string(nv)}, {"-output", fn}}; if (!dflt) { opt.push_back({"-a", strf("%.17g", p.a)}); opt.push_back({"-b", strf("%.17g", p.b)}); opt.push_back({"-c", strf("%.17g", p.c)}); } if (t.chance(2, 3)) opt.push_back({"-threads", std::to_string(t.draw(8))}); if (p.fn == 2) opt.push_back({"-sorted"}); if (!p.self) opt.push_back({"-noEdgeToSelf"}); if (!p.dup) opt.push_back({"-noDuplicateEdges"}); if (!p.dir) opt.push_back({"-undirected"}); if (t.chance(1, 4)) opt.push_back({"-memUsage", strf("0.%d", 1 + (int)t.draw(9))});
    for (size_t i = opt.size(); i > 1; --i) std::swap(opt[i - 1], opt[t.draw(i)]); for (auto &o : opt) av.insert(av.end(), o.begin(), o.end()); std::vector<char *> cv; std::string line; for (auto &x : av) { cv.push_back((char *)x.c_str()); line += x + " "; } cv.push_back(nullptr); ctx.note(line); ctx.label("command line"); ctx.nontrivial = p.ne >= 20; int rc; { Quiet q; rc = parmat_main((int)av.size(), cv.data()); }
    Edges e = parse(fn); unlink(fn.c_str()); PBT_CHECK(rc == 0, "PaRMAT returned %d", rc); verify(p, e, p.fn == 2); }
PBT_PROP(refused, 1) {  // a command line without a usable request ends in failure and writes no edge
    uint64_t nv = 2 + t.draw(60), ne = 1 + t.draw(nv * nv - 1); std::string fn = path(), out = fn, sn = std::to_string(ne), sv = std::to_string(nv); std::vector<std::vector<std::string>> opt; int kind = t.draw(7); static const char *w[] = {"no edge count", "no vertex count", "no edges", "no vertices", "more edges than cells", "an output that cannot be opened", "a count that is no number"};
    if (kind == 2) sn = "0"; if (kind == 3) sv = "0"; if (kind == 4) sn = std::to_string(nv * nv + t.draw(100)); if (kind == 5) out = fn + ".none/x"; if (kind == 6) (t.chance(1, 2) ? sn : sv) = t.chance(1, 2) ? "many" : "x12";
    if (kind != 0) opt.push_back({"-nEdges", sn}); if (kind != 1) opt.push_back({"-nVertices", sv}); opt.push_back({"-output", out}); if (t.chance(1, 2)) opt.push_back({"-sorted"}); if (t.chance(1, 3)) opt.push_back({"-undirected"}); if (t.chance(1, 3)) opt.push_back({"-threads", std::to_string(1 + t.draw(4))}); if (t.chance(1, 4)) opt.push_back({"-a", "0.25"});
    for (size_t i = opt.size(); i > 1; --i) std::swap(opt[i - 1], opt[t.draw(i)]); bool cut = kind < 2 && t.chance(1, 2); std::vector<std::string> av = {"PaRMAT"}; for (auto &o : opt) av.insert(av.end(), o.begin(), o.end()); if (cut) av.push_back(kind ? "-nVertices" : "-nEdges");
    std::vector<char *> cv; std::string line; for (auto &x : av) { cv.push_back((char *)x.c_str()); line += x + " "; } cv.push_back(nullptr); ctx.note(line); ctx.label("refused"); ctx.nontrivial = true; int rc; { Quiet q; rc = parmat_main((int)av.size(), cv.data()); } Edges e; if (kind != 5) { e = parse(fn); unlink(fn.c_str()); }
    PBT_CHECK(rc != 0, "PaRMAT reports success with %s", w[kind]); PBT_CHECK(e.empty(), "PaRMAT wrote %zu edges with %s", e.size(), w[kind]); }
PBT_PROP(queue, 1) {    // every item leaves once, the items of one producer in order
    int np = 1 + t.draw(4), nc = 1 + t.draw(4), each = 1 + t.draw(300); bool wait = t.chance(1, 2), shared = t.chance(1, 2); ctx.note(strf("%d producers of %d items, %d consumers%s", np, each, nc, wait ? ", waiting" : "")); ctx.nontrivial = np + nc > 2; ctx.label("queue"); threadsafe_queue<std::vector<int>> q; std::vector<std::vector<std::pair<int, int>>> got(nc); std::atomic<int> left(np * each), bad(0);
    std::vector<std::thread> th; for (int i = 0; i < np; ++i) th.emplace_back([&, i] { for (int k = 0; k < each; ++k) q.push(std::vector<int>{i, k}); });
    for (int i = 0; i < nc; ++i) th.emplace_back([&, i] { while (true) { if (wait) { if (left.fetch_sub(1) <= 0) return; std::vector<int> v; if (shared) { auto p = q.wait_and_pop(); if (!p) { ++bad; return; } v = *p; } else q.wait_and_pop(v); if (v.size() != 2) { ++bad; return; } got[i].push_back({v[0], v[1]}); }
        else { if (left.load() <= 0) return; std::vector<int> v; if (shared) { auto p = q.try_pop(); if (!p) continue; v = *p; } else if (!q.try_pop(v)) continue; --left; if (v.size() != 2) { ++bad; return; } got[i].push_back({v[0], v[1]}); } } });
    for (auto &x : th) x.join(); PBT_CHECK(!bad, "the queue returned a damaged item"); std::set<std::pair<int, int>> all; for (auto &g : got) { std::map<int, int> lastk; for (auto &x : g) { PBT_CHECK(all.insert(x).second, "item %d of producer %d left the queue twice", x.second, x.first); auto it = lastk.find(x.first); PBT_CHECK(it == lastk.end() || it->second < x.second, "a consumer got items of producer %d out of order", x.first); lastk[x.first] = x.second; } } PBT_CHECK((int)all.size() == np * each, "%zu of %d items left the queue", all.size(), np * each); PBT_CHECK(!q.try_pop(), "an item is left over"); }
PBT_PROP(gate, 1) {     // never more than the capacity inside
    int nt = 2 + t.draw(5), reps = 1 + t.draw(60); long cap = 2 + t.draw(50), init = t.chance(1, 3) ? t.draw(cap) : 0; ctx.note(strf("%d threads, capacity %ld, %ld taken", nt, cap, init)); ctx.label("gate"); ctx.nontrivial = true; capacity_controller<long long> g(cap, init); std::atomic<long> in(init), over(0); std::atomic<int> done(0); uint64_t s = t.draw(1u << 30); std::vector<std::thread> th;
    for (int i = 0; i < nt; ++i) th.emplace_back([&, i] { pbt::Rng r(s + i); for (int k = 0; k < reps; ++k) { long w = 1 + r.below(cap - init); g.accumulate(w); long now = in.fetch_add(w) + w; if (now > cap) over = now; if (r.below(3) == 0) std::this_thread::yield(); in.fetch_sub(w); g.dissipate(w); } ++done; });
    for (auto &x : th) x.join(); PBT_CHECK(!over, "%ld inside a gate of capacity %ld", over.load(), cap); }
PBT_PROP(queue_wakeups, 2) {    // two threads hand items back and forth: an item in the queue always wakes the one who waits for it
    int rounds = 200 + t.draw(4000), burst = 1 + (t.chance(1, 3) ? t.draw(4) : 0); ctx.note(strf("%d hand-overs of %d items", rounds, burst)); ctx.label("queue"); ctx.nontrivial = true; threadsafe_queue<int> a, b; std::atomic<long> prog(0); std::atomic<int> done(0); std::atomic<bool> stop(false);
    std::thread x([&] { for (int r = 0; r < rounds && !stop; ++r) for (int k = 0; k < burst; ++k) { int v; a.wait_and_pop(v); if (stop) break; ++prog; b.push(v); } ++done; });
    std::thread y([&] { for (int r = 0; r < rounds && !stop; ++r) { for (int k = 0; k < burst; ++k) a.push(r); for (int k = 0; k < burst && !stop; ++k) { int v; b.wait_and_pop(v); ++prog; } } ++done; });
    long last = -1; int still = 0; bool stuck = false; while (done < 2) { usleep(done ? 200 : 2000); long p = prog; if (p == last) { if (++still > 4000) { stuck = stop = true; while (done < 2) { a.push(0); b.push(0); usleep(1000); } } } else { still = 0; last = p; } }
    x.join(); y.join(); PBT_CHECK(!stuck, "after %ld hand-overs a consumer waits although an item was pushed", last); }
