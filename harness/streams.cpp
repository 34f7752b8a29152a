// C30: GTgraph's random number streams (SPRNG): histories of init / draw / spawn / pack / unpack / free against the generators' definitions.
#include <vector>
#include <map>
#include <set>
#include <string>
#include <cstring>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/wait.h>
#include "GTgraph/sprng2.0-lite/src/sprng.h"
extern "C" { int *finit_rng_(int *, int *, int *, int *, int *); int fspawn_rng_(int **, int *, int **, int); int fget_rn_int_(int **); float fget_rn_flt_(int **); double fget_rn_dbl_(int **); int fpack_rng_(int **, char *); int *funpack_rng_(char *); int ffree_rng_(int **); int fget_seed_rng_(int **); }
#include "pbt.h"
#include "quiet.h"
using pbt::Tape; using pbt::Ctx; using pbt::strf;
typedef uint64_t u64; typedef uint32_t u32; typedef unsigned __int128 u128;
namespace pbt { double g_case_timeout = 25; const char *g_rule =
    "one case = a history of 2-40 steps on streams of the five generators (all parameters; seeds, stream numbers and totals drawn): create, draw integers, doubles and floats, spawn 1-6, pack, unpack, free, print, ask the seed, the default stream, refused arguments, by the C, pointer-checked and Fortran interfaces. "
    "Checked: every number equals the one the generator's recurrence gives for (parameter, seed, stream), written here from its definition and started as published; ranges; different streams of one family differ; counts of live streams. Non-trivial: at least 30 numbers and one spawn or unpack; distinct by the list of generator draws"; }

// ---- the generators by definition ----
static const std::vector<u32> &primes32() { static std::vector<u32> p; if (p.empty()) { const u32 N = 11863285; std::vector<char> c(N + 1); for (u32 i = 2; i * i <= N; ++i) if (!c[i]) for (u32 j = i * i; j <= N; j += i) c[j] = 1; for (u32 i = N; i > 3444 && p.size() < 779156; --i) if (!c[i]) p.push_back(i); } return p; }   // descending
static const std::vector<u32> &primes64() { static std::vector<u32> p; if (p.empty()) { const u64 hi = 3037000501u, len = 3000000, lo = hi - len; std::vector<char> c(len + 1), s(60000); for (u64 i = 2; i * i <= hi; ++i) { if (s[i]) continue; for (u64 j = i * i; j < 60000; j += i) s[j] = 1; for (u64 j = (lo + i - 1) / i * i; j <= hi; j += i) c[j - lo] = 1; } for (u64 i = hi; i > lo; --i) if (!c[i - lo]) p.push_back(i); } return p; }
static const u64 LCGM[] = {0x2875a2e7b175, 0x5deece66d, 0x3eac44605265, 0x275b38eb4bbd, 0x1ee1429cc9f5, 0x739a9cb08605, 0x3228d7cc25f5}, L64M[] = {0x27bb2ee687b0b0fd, 0x2c6fe96ee78b6955, 0x369dea0f31a53f85};
struct Lag { int L, K, first; };
static const Lag LFG[] = {{1279, 861, 233}, {17, 5, 10}, {31, 6, 2}, {55, 24, 11}, {63, 31, 14}, {127, 97, 21}, {521, 353, 100}, {521, 168, 83}, {607, 334, 166}, {607, 273, 105}, {1279, 418, 208}}, MLFG[] = {{17, 5, 10}, {31, 6, 2}, {55, 24, 11}, {63, 31, 14}, {127, 97, 21}, {521, 353, 100}, {521, 168, 83}, {607, 334, 166}, {607, 273, 105}, {1279, 418, 208}, {1279, 861, 233}};
static const int NPARAM[] = {11, 7, 3, 3, 11};
static u64 shiftreg(u64 b) {      // x^64 + x^4 + x^3 + x + 1, 64 steps; the four top bits as published (see the .data files): their taps are taken from the other half
    static const u64 top[4] = {0x1bb0000000, 0x2d60000000, 0x5ac0000000, 0xaf80000000}; u64 n = 0; for (int i = 0; i < 60; ++i) n |= (u64)__builtin_parityll(b & (0x1bull << i)) << i; for (int i = 0; i < 4; ++i) n |= (u64)__builtin_parityll(b & top[i]) << (60 + i); return n; }
static u64 pow3(u64 e) { u64 r = 1, s = 3; for (; e; e >>= 1, s *= s) if (e & 1) r *= s; return r; }
struct Stream { int type, param; u32 seed; long number = 0; bool knowNumber = true; long family = 0;
    u64 x = 0, add = 0, y[5] = {1, 1, 1, 1, 1}; long off = 1;           // congruential
    std::vector<u64> a, b; long n = 0; u128 node = 0;                     // lagged
    int digit() const { return type == SPRNG_LFG ? 31 : 61; }
    const Lag &lag() const { return type == SPRNG_LFG ? LFG[param] : MLFG[param]; }
    u64 dig(u128 v, int i) const { int s = digit() * i; return s >= 128 ? 0 : (u64)(v >> s) & ((1ull << digit()) - 1); }
    std::vector<u64> fill(u128 v) const { const Lag &g = lag(); std::vector<u64> r(g.L), back(g.L); u32 s = seed ^ 0x372f05ac; u64 reg = dig(v, 0);
        if (type == SPRNG_LFG) { u32 w = (u32)reg ^ s; reg = w ? (u64)w << 32 | w : 0x372f05ac; } else { u32 w = (u32)reg ^ s; reg = (reg & ~0xffffffffull) | (w ? w : 0x372f05ac); }
        reg = shiftreg(shiftreg(reg)); r[0] = dig(v, 0) << 1;
        for (int i = 1; i < g.L - 1; ++i) { reg = shiftreg(reg); u64 f = type == SPRNG_LFG ? (u32)reg : (u64)(int64_t)(int32_t)reg | (reg & ~0xffffffffull); r[i] = ((f ^ dig(v, i)) & ((1ull << digit()) - 1)) << 1; }     // (the register's low word is signed)
        r[g.L - 1] = 0; r[g.first] |= 1; if (type == SPRNG_MLFG) for (int m = 0; m < g.L; ++m) { r[m] = pow3(r[m]); if (m < 64 && (0x5a38ull >> m & 1)) r[m] = -r[m]; }
        for (int i = 0; i < g.L; ++i) back[g.L - 1 - i] = r[i]; return back; }       // r[0] is the newest value
    void fills(u128 v) { if (type == SPRNG_LFG) { a = fill(2 * v); b = fill(2 * v + 1); } else a = fill(v); n = 0; node = 2 * v + 1; }
    void warm(bool deep) { long k = (deep ? (type == SPRNG_LFG ? 64 : 124) : 4) * lag().L; for (long i = 0; i < k; ++i) type == SPRNG_LFG ? (void)lfg(2) : (void)mlfg(); }
    static u64 step(std::vector<u64> &r, long n, const Lag &g, bool mul) { u64 &o = r[n % g.L]; u64 k = r[(n + g.L - g.K) % g.L]; return o = mul ? o * k : (u32)(o + k); }
    u64 mlfg() { u64 v = step(a, n, lag(), true); ++n; return v; }
    std::pair<u32, u32> lfg(int k) { u32 w[2] = {0, 0}; for (int i = 0; i < k; ++i) { u32 p = step(a, n, lag(), false), q = step(b, n, lag(), false); ++n; w[i] = (q & ~1u) ^ (p >> 1); } return {w[0], w[1]}; }
    u64 lcg() { if (type == SPRNG_LCG) return x = (x * LCGM[param] + add) & 0xffffffffffffull; x = x * L64M[param] + add; if (type == SPRNG_LCG64) return x;
        u128 p = (u128)107374182 * y[0] + (u128)104480 * y[4]; u64 m = 2147483647, z = (u64)(p % m); if (!z && p) z = m; for (int i = 4; i; --i) y[i] = y[i - 1]; y[0] = z; return x + (z << 32); }
    void start() { switch (type) {
        case SPRNG_LCG: x = 0x2bc68cfe166d ^ ((u64)seed << 16); add = primes32()[number]; for (long i = 0; i < 29 * number; ++i) lcg(); break;
        case SPRNG_LCG64: case SPRNG_CMRG: x = 0x2bc6ffff8cfe166d ^ ((u64)seed << 33 | (u64)number); add = primes64()[number]; for (long i = 0; i < 127 * number; ++i) lcg(); break; } }
    int num() { switch (type) { case SPRNG_LFG: return lfg(2).first >> 1; case SPRNG_LCG: return lcg() >> 17; case SPRNG_MLFG: return mlfg() >> 33; default: return lcg() >> 33; } }
    double dbl() { switch (type) { case SPRNG_LFG: { auto w = lfg(2); return (w.second * 0x1p-32 + w.first) * 0x1p-32; } case SPRNG_LCG: return lcg() * 0x1p-48; case SPRNG_MLFG: return (mlfg() >> 12) * 0x1p-52; default: return lcg() * 0x1p-64; } }
    float flt() { return type == SPRNG_LFG ? (float)(lfg(2).first * 0x1p-32) : (float)dbl(); }
};
static Stream create(int type, int g, int total, u32 seed, int param) { Stream s; s.type = type; s.param = param; s.seed = seed & 0x7fffffff; s.number = g; s.off = total;
    if (type == SPRNG_LFG || type == SPRNG_MLFG) { s.fills(g); bool deep = s.node >> s.digit(); s.warm(deep); while ((u64)s.node < (u64)total && s.node < ((u128)1 << s.digit())) s.node *= 2; } else s.start();
    return s; }
static bool canSpawn(const Stream &s, int k) { if (s.type == SPRNG_LFG || s.type == SPRNG_MLFG) return s.node < (u128)1 << 100; return s.number + s.off * k <= 3000; }
static std::vector<Stream> spawn(Stream &p, int k) { std::vector<Stream> r;
    if (p.type != SPRNG_LFG && p.type != SPRNG_MLFG) { for (int i = 0; i < k; ++i) { Stream s; s.type = p.type; s.param = p.param; s.seed = p.seed; s.family = p.family; s.number = p.number + p.off * (i + 1); s.off = p.off * (k + 1); s.start(); r.push_back(s); } p.off *= k + 1; return r; }
    std::vector<int> order = {0};           // the parent of the next one: breadth first over the tree of nodes
    auto add = [&](u128 v) { Stream s; s.type = p.type; s.param = p.param; s.seed = p.seed; s.family = p.family; s.knowNumber = false; s.fills(v); r.push_back(s); };
    add(p.node);
    while ((int)r.size() < k) { int l = r.size(); for (int j = 0; j < l && (int)r.size() < k; ++j) { u128 v = r[order[j]].node; add(v); r[order[j]].node = 2 * v; r.back().node = 2 * v + 1; }
        std::vector<int> o; for (int j = 0; j < l; ++j) { o.push_back(order[j]); o.push_back(l + j); } order = o; }
    bool deep = true; for (int i = k - 1; i >= 0; --i) { deep = deep && (r[i].node >> r[i].digit()); r[i].warm(deep); }
    p.node *= 2; return r; }

// ---- histories ----
enum Op { INIT, DRAW, SPAWN, PACK, UNPACK, FREE, SEED, PRINT, SIMPLE, SDRAW, SPACK, SUNPACK, BAD, BADPACK, NOPS };
struct Step { int op, a, b, c; long d, e; };
static const char *TN[] = {"LFG", "LCG", "LCG64", "CMRG", "MLFG"};
struct Quiet2 { int fd; Quiet2() { fflush(stderr); fd = dup(2); if (getenv("PBT_LOUD")) return; int x = open("/dev/null", O_WRONLY); dup2(x, 2); close(x); } ~Quiet2() { fflush(stderr); dup2(fd, 2); close(fd); } };
template<class F> static auto quietly(F f) { Quiet2 q; return f(); }
static std::string captured(int (*f)(int *), int *g, int *ret) { fflush(stdout); FILE *t = tmpfile(); int fd = dup(1); dup2(fileno(t), 1); *ret = f(g); fflush(stdout); dup2(fd, 1); close(fd); rewind(t); std::string s; int c; while ((c = fgetc(t)) != EOF) s += (char)c; fclose(t); return s; }
struct Live { int *g; Stream m; bool checked; };
static void draws(const char *what, Stream &m, int kind, long n, int *g, int how) {      // how: 0 C, 1 Fortran, 2 the default stream
    for (long i = 0; i < n; ++i) { std::string at = strf("%s, %s parameter %d seed %u, number %ld of this step", what, TN[m.type], m.param, m.seed, i);
        if (kind == 0) { int x = how == 0 ? get_rn_int(g) : how == 1 ? fget_rn_int_(&g) : get_rn_int_simple(), y = m.num(); PBT_CHECK(x == y, "%s: integer %d instead of %d", at.c_str(), x, y); PBT_CHECK(x >= 0, "%s: %d", at.c_str(), x); }
        else if (kind == 1) { double x = how == 0 ? get_rn_dbl(g) : how == 1 ? fget_rn_dbl_(&g) : get_rn_dbl_simple(), y = m.dbl(); PBT_CHECK(x == y, "%s: double %.17g instead of %.17g", at.c_str(), x, y); PBT_CHECK(x >= 0 && x < 1, "%s: %.17g", at.c_str(), x); }
        else { float x = how == 0 ? get_rn_flt(g) : how == 1 ? fget_rn_flt_(&g) : get_rn_flt_simple(), y = m.flt(); PBT_CHECK(x == y, "%s: float %.9g instead of %.9g", at.c_str(), x, y); PBT_CHECK(x >= 0 && x <= 1, "%s: %.9g", at.c_str(), x); } } }
static void execute(const std::vector<Step> &steps) {
    std::vector<Live> v; std::vector<std::pair<std::vector<char>, Stream>> packs; long count[5] = {0}; bool haveDef = false; Stream def; std::vector<std::pair<std::vector<char>, Stream>> spacks;
    std::map<std::tuple<int, int, u32, std::vector<int>>, int> seen;
    for (auto &s : steps) { if (s.op != INIT && s.op < SIMPLE && s.op != UNPACK && v.empty()) continue; size_t at = v.empty() ? 0 : (size_t)s.e % v.size(); bool F = s.c & 1;
        switch (s.op) {
        case INIT: { int g = s.d, total = s.e, param = s.b & 15, type = s.a; int seed = (int)(s.b >> 4) | (s.c & 2 ? (int)0x80000000 : 0); int np = param < NPARAM[type] ? param : 0, *r; r = quietly([&] { return F ? finit_rng_(&type, &g, &total, &seed, &param) : init_rng(type, g, total, seed, param); });
            PBT_CHECK(r, "stream %d of %d, %s parameter %d seed %d: refused", g, total, TN[type], param, seed); Live l = {r, create(type, g, total, seed, np), false}; if (s.c & 4) { PBT_CHECK(addID(r) == r, "the list of streams refuses one"); l.checked = true; } v.push_back(l); ++count[type]; break; }
        case DRAW: draws("stream", v[at].m, s.a, s.d, v[at].g, F); if (v[at].checked) PBT_CHECK(checkID(v[at].g) == v[at].g, "a listed stream is not recognised"); break;
        case SPAWN: { Live &p = v[at]; int k = s.d; if (!canSpawn(p.m, k)) break; int n, want = k; bool chk = p.checked; std::vector<int *> kids; Stream pm = p.m;
            if (F) { std::vector<int *> out(k); n = quietly([&] { return fspawn_rng_(&p.g, &k, out.data(), chk); }); kids = out; } else { int **out = nullptr; n = quietly([&] { return spawn_rng(p.g, k, &out, chk); }); for (int i = 0; i < n; ++i) kids.push_back(out[i]); free(out); }
            PBT_CHECK(n == want, "%d streams spawned instead of %d", n, want); std::vector<Stream> ms = spawn(p.m, k); count[pm.type] += k; for (int i = 0; i < k; ++i) { PBT_CHECK(!chk || checkID(kids[i]) == kids[i], "a spawned stream is not recognised"); v.push_back({kids[i], ms[i], chk}); } break; }
        case PACK: { Live &l = v[at]; std::vector<char> buf; if (F) { std::vector<char> b(MAX_PACKED_LENGTH); int n = fpack_rng_(&l.g, b.data()); PBT_CHECK(n > 0 && n <= MAX_PACKED_LENGTH, "a stream of %d bytes packed", n); buf.assign(b.begin(), b.begin() + n); } else { char *p = nullptr; int n = pack_rng(l.g, &p); PBT_CHECK(p && n > 0 && n <= MAX_PACKED_LENGTH, "a stream of %d bytes packed", n); buf.assign(p, p + n); free(p); }
            packs.push_back({buf, l.m}); break; }
        case UNPACK: { if (packs.empty()) break; auto &k = packs[s.e % packs.size()]; std::vector<char> b = k.first; int *g = quietly([&] { return F ? funpack_rng_(b.data()) : unpack_rng(b.data()); }); PBT_CHECK(g, "a packed stream is refused"); v.push_back({g, k.second, false}); ++count[k.second.type]; break; }
        case FREE: { Live l = v[at]; v.erase(v.begin() + at); if (l.checked) PBT_CHECK(deleteID(l.g) == l.g, "a listed stream cannot be taken off"); --count[l.m.type]; int n = F ? ffree_rng_(&l.g) : free_rng(l.g); PBT_CHECK(n == count[l.m.type], "%d streams left instead of %ld", n, count[l.m.type]); if (l.checked) PBT_CHECK(quietly([&] { return checkID(l.g); }) == nullptr, "a freed stream is still recognised"); break; }
        case SEED: { Live &l = v[at]; int x = F ? fget_seed_rng_(&l.g) : get_seed_rng(l.g); PBT_CHECK(x == (int)l.m.seed, "%s: seed %d instead of %u", TN[l.m.type], x, l.m.seed); break; }
        case PRINT: { Live &l = v[at]; int ret = 0; std::string o = captured(print_rng, l.g, &ret); int sd = -1, nb = -1, pa = -1; size_t q = o.find("seed ="); PBT_CHECK(q != std::string::npos && sscanf(o.c_str() + q, "seed = %d, stream_number = %d parameter = %d", &sd, &nb, &pa) == 3, "printed '%.100s'", o.c_str()); PBT_CHECK(ret == 1 && sd == (int)l.m.seed && pa == l.m.param && (!l.m.knowNumber || nb == l.m.number), "%s parameter %d seed %u number %ld prints '%.100s'", TN[l.m.type], l.m.param, l.m.seed, l.m.number, o.c_str()); break; }
        case SIMPLE: { int param = s.b & 15, np = param < NPARAM[s.a] ? param : 0, seed = s.b >> 4; PBT_CHECK(quietly([&] { return init_rng_simple(s.a, seed, param); }), "the default stream is refused"); if (haveDef) --count[def.type]; def = create(s.a, 0, 1, seed, np); haveDef = true; ++count[s.a]; break; }
        case SDRAW: if (!haveDef) { def = create(SPRNG_LFG, 0, 1, 0, 0); haveDef = true; ++count[SPRNG_LFG]; } draws("default stream", def, s.a, s.d, nullptr, 2); break;
        case SPACK: { char *p = nullptr; int n = pack_rng_simple(&p); PBT_CHECK(haveDef ? n > 0 && n <= MAX_PACKED_LENGTH : n == 0, "the default stream packs into %d bytes", n); if (!haveDef) break; spacks.push_back({std::vector<char>(p, p + n), def}); free(p); break; }
        case SUNPACK: { auto &from = s.c & 4 ? packs : spacks; if (from.empty()) break; auto &k = from[s.e % from.size()]; std::vector<char> b = k.first; PBT_CHECK(quietly([&] { return unpack_rng_simple(b.data()); }), "a packed default stream is refused"); if (haveDef) --count[def.type]; def = k.second; haveDef = true; ++count[def.type]; break; }
        case BAD: { int *g; if (s.a == 0) g = quietly([&] { return init_rng(5 + s.b, 0, 1, 1, 0); }); else if (s.a == 1) g = quietly([&] { return init_rng(s.b % 5, s.d, s.d, 1, 0); }); else g = quietly([&] { return init_rng(s.b % 5, -1 - (int)s.d, 3, 1, 0); }); PBT_CHECK(!g, "a stream of no such type or number is created"); if (s.a == 3) { int dummy[9]; PBT_CHECK(quietly([&] { return checkID(dummy); }) == nullptr, "a pointer that is no stream is recognised"); } break; }
        case BADPACK: { if (packs.empty()) break; std::vector<char> b = packs[s.e % packs.size()].first; if (s.a == 0) b[4 + s.d % 20] ^= 1; else b[3] = 5 + s.d % 100; PBT_CHECK(quietly([&] { return unpack_rng(b.data()); }) == nullptr, "a packed stream of %s is accepted", s.a ? "no such type" : "another generator's name"); break; } } }
    for (auto &l : v) { long n = 3; draws("last", l.m, 0, n, l.g, 0); draws("last", l.m, 1, n, l.g, 0); free_rng(l.g); if (l.checked) deleteID(l.g); } }
static std::string show(const Step &s) { static const char *N[] = {"init", "draw", "spawn", "pack", "unpack", "free", "seed", "print", "default", "default-draw", "default-pack", "default-unpack", "refused", "altered"}; return strf("%s(%d,%d,%d,%ld,%ld) ", N[s.op], s.a, s.b, s.c, s.d, s.e); }
static void isolated(const std::vector<Step> &st) {     // a process of its own: the generators keep global state
    primes32(); primes64(); int p[2]; if (pipe(p)) exit(3); fflush(nullptr); pid_t c = fork(); if (c < 0) { fprintf(stderr, "cannot fork\n"); exit(3); }
    if (!c) { close(p[0]); std::string m; try { execute(st); } catch (pbt::Failure &f) { m = f.msg; } if (!m.empty() && write(p[1], m.data(), m.size()) < 0) _exit(3); close(p[1]); _exit(0); }
    close(p[1]); std::string m; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, n); close(p[0]); int stt; while (waitpid(c, &stt, 0) < 0) {} PBT_CHECK(m.empty(), "%s", m.c_str()); PBT_CHECK(WIFEXITED(stt) && WEXITSTATUS(stt) == 0, "the process ended with status %x", stt); }
static Step one(Tape &t, int op, int fixed, bool many) { Step s = {op, 0, 0, (int)t.draw(8), 0, 0}; static const int seeds[] = {0, 1, 985456376, 0x7fffffff, 0x372f05ac, 0x12345678};
    auto kind = [&] { return fixed >= 0 ? fixed : (int)t.draw(5); }; auto sp = [&] { int sd = t.chance(1, 3) ? seeds[t.draw(6)] >> 4 : (int)t.draw(1 << 27), pa = t.chance(1, 2) ? 0 : t.chance(1, 12) ? 11 + (int)t.draw(5) : (int)t.draw(11); return sd << 4 | pa; };
    switch (op) {
    case INIT: s.a = kind(); s.b = sp(); s.e = t.chance(1, 2) ? 1 + t.draw(4) : 1 + t.draw(40); if (t.chance(1, 25)) s.e = s.a == SPRNG_LCG ? 1 + t.draw(779000) : s.a == SPRNG_LFG || s.a == SPRNG_MLFG ? 1 + t.draw(2147483646) : 1 + t.draw(100000); s.d = t.chance(1, 3) ? s.e - 1 : t.draw(s.e); break;
    case DRAW: case SDRAW: s.a = t.draw(3); s.d = many && t.chance(1, 6) ? 1 + t.draw(t.chance(1, 60) ? 150000 : 4000) : 1 + t.draw(30); s.e = t.draw(1000); break;
    case SPAWN: s.d = 1 + t.draw(t.chance(1, 30) ? 70 : 6); s.e = t.draw(1000); break;
    case SIMPLE: s.a = kind(); s.b = sp(); break;
    case BAD: s.a = t.draw(4); s.b = t.draw(20); s.d = 1 + t.draw(100); break;
    case BADPACK: s.a = t.draw(2); s.d = t.draw(100); s.e = t.draw(1000); break;
    default: s.e = t.draw(1000); }
    return s; }
static void finish(std::vector<Step> &st, Ctx &ctx) { long nums = 0; bool sp = false, hasPack = false; for (auto &s : st) { ctx.note(show(s)); if (s.op == DRAW || s.op == SDRAW) nums += s.d; sp |= s.op == SPAWN || (s.op == UNPACK && hasPack); hasPack |= s.op == PACK; if (s.op == INIT) ctx.label(TN[s.a]); } ctx.nontrivial = nums >= 30 && sp; isolated(st); }
PBT_PROP(history, 6) { int n = 2 + t.draw(t.chance(1, 4) ? 39 : 14), fixed = t.chance(1, 2) ? (int)t.draw(5) : -1; std::vector<Step> st = {one(t, INIT, fixed, true)}; for (int i = 1; i < n; ++i) { static const int W[] = {4, 10, 5, 4, 4, 2, 1, 1, 1, 2, 1, 1, 1, 1}; int w = t.draw(38), op = 0; for (; w >= W[op]; ++op) w -= W[op]; st.push_back(one(t, op, fixed, true)); } finish(st, ctx); }
// every stream of one family (all of a total, and what they spawn) is a different sequence
PBT_PROP(family, 2) {
    int type = t.draw(5), param = t.draw(NPARAM[type]), total = 1 + t.draw(8); u32 seed = t.draw(1u << 31); int gens = 1 + t.draw(14); std::vector<std::pair<int, int>> sp; for (int i = 0; i < gens; ++i) sp.push_back({(int)t.draw(1000), 1 + (int)t.draw(5)});
    ctx.note(strf("%s parameter %d seed %u, %d streams, %d spawns", TN[type], param, seed, total, gens)); ctx.label(TN[type]); ctx.nontrivial = true; int p[2]; if (pipe(p)) exit(3); fflush(nullptr); primes32(); primes64(); pid_t c = fork(); if (c < 0) exit(3);
    if (!c) { close(p[0]); std::string m; try { std::vector<int *> v; std::map<std::vector<int>, int> seen; std::vector<std::string> name; { Quiet2 q; for (int g = 0; g < total; ++g) { v.push_back(init_rng(type, g, total, seed, param)); name.push_back(std::to_string(g)); } for (auto &x : sp) { if (v.size() > 60) break; int at = x.first % v.size(); int **o; int k = spawn_rng(v[at], x.second, &o, 0); for (int i = 0; i < k; ++i) { v.push_back(o[i]); name.push_back(name[at] + "." + std::to_string(v.size())); } free(o); } }
            for (size_t i = 0; i < v.size(); ++i) { std::vector<int> f; for (int j = 0; j < 4; ++j) f.push_back(get_rn_int(v[i])); auto r = seen.insert({f, (int)i}); PBT_CHECK(r.second, "streams %s and %s start %d %d %d %d", name[r.first->second].c_str(), name[i].c_str(), f[0], f[1], f[2], f[3]); free_rng(v[i]); } } catch (pbt::Failure &f) { m = f.msg; } if (!m.empty() && write(p[1], m.data(), m.size()) < 0) _exit(3); close(p[1]); _exit(0); }
    close(p[1]); std::string m; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, n); close(p[0]); int stt; while (waitpid(c, &stt, 0) < 0) {} PBT_CHECK(m.empty(), "%s", m.c_str()); PBT_CHECK(WIFEXITED(stt) && WEXITSTATUS(stt) == 0, "the process ended with status %x", stt); }
