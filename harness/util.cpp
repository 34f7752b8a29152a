// C25: memory and container utilities against models.
#include <omp.h>
#include <numeric>
#include <memory>
#include <cstring>
#include <set>
#include <map>
#include <sys/mman.h>
#include "CSR.h"
#include "CSC.h"
#include "SplitTuples.h"
#include "BitMap.h"
#include "Deleter.h"
#include "HeapEntry.h"
#include "utility.h"
#include "spgemm-blocks/util.h"
#include "gen.h"
#include "kern.h"
#include "kern_impl.h"
using namespace gen; using pbt::Tape; using pbt::Ctx; using pbt::strf; using pbt::RngSrc; using pbt::Src;
namespace pbt { const char *g_rule =
    "one case = a history of aligned allocations and releases (all sizes, power-of-two and other alignments, element sizes 1-96, contents checked until release); or one split of a scratch buffer (any size, dirty prefix and object counts that fit, seven pairs of element types, or a chain of splits over one buffer); "
    "or a history of bit map operations (sizes to 5000 bits, one history in 100 to 10 million, sometimes beyond 2^32; plain and concurrent setting from up to 8 threads; copies, assignments, scans for the next set bit) against std::set; or a matrix cut into row pieces (CSR and CSC, 1-9 pieces, more pieces than rows); or the small helpers (2-D arrays, deleters, power-of-two arithmetic, rounding, tolerant equality, iota, initialised allocation, heap entries). "
    "Non-trivial: the history holds at least two live objects or three operations, the split has a dirty prefix and a non-empty clean region, the matrix has entries in two pieces; distinct by the list of generator draws"; }

struct B3 { unsigned char b[3]; }; struct B12 { int32_t a[3]; }; struct B96 { double d[12]; };
template<class T> static void *aAlloc(size_t n, size_t al, bool dflt) { return dflt ? (void *)mallocAligned<T>(n) : (void *)mallocAligned<T>(n, al); }
template<class T> static void aFree(void *p) { freeAligned((T *)p); }
PBT_PROP(aligned_buffers, 3) {
    struct Ty { const char *n; size_t sz; void *(*al)(size_t, size_t, bool); void (*fr)(void *); }; static const Ty tys[] = {{"byte", 1, aAlloc<std::byte>, aFree<std::byte>}, {"int", 4, aAlloc<int>, aFree<int>}, {"double", 8, aAlloc<double>, aFree<double>}, {"3 bytes", 3, aAlloc<B3>, aFree<B3>}, {"12 bytes", 12, aAlloc<B12>, aFree<B12>}, {"96 bytes", 96, aAlloc<B96>, aFree<B96>}, {"short", 2, aAlloc<short>, aFree<short>}};
    struct Buf { unsigned char *p; size_t n; unsigned char fill; const Ty *ty; }; std::vector<Buf> live; int steps = 1 + t.draw(14); size_t mx = 0;
    auto chk = [&](Buf &b) { for (size_t i = 0; i < b.n; ++i) PBT_CHECK(b.p[i] == (unsigned char)(b.fill + i * 5), "byte %zu of a live buffer of %zu changed", i, b.n); };
    for (int s = 0; s < steps; ++s) { if (!live.empty() && t.chance(2, 5)) { size_t k = t.draw(live.size()); chk(live[k]); ctx.note(strf(" free#%zu", k)); live[k].ty->fr(live[k].p); live.erase(live.begin() + k); continue; }
        const Ty &ty = tys[t.draw(7)]; bool dflt = t.chance(1, 3); size_t al = dflt ? ty.sz : t.chance(3, 4) ? (size_t)1 << (t.chance(1, 60) ? t.draw(22) : t.draw(13)) : 1 + t.draw(100); size_t n = t.chance(1, 6) ? t.draw(20000) : t.draw(70); if (t.chance(1, 300)) n = t.draw(6000000) / ty.sz; ctx.note(strf(" %zu x %s aligned to %zu", n, ty.n, al)); unsigned char *p = (unsigned char *)ty.al(n, al, dflt); PBT_CHECK(p, "no memory"); PBT_CHECK((uintptr_t)p % al == 0, "a buffer of %zu x %s aligned to %zu lies at offset %zu", n, ty.n, al, (size_t)((uintptr_t)p % al));
        PBT_CHECK(isAligned(p, al), "isAligned denies the alignment %zu of %p", al, (void *)p); if (al > 1) PBT_CHECK(!isAligned(p + 1, al), "isAligned accepts %p for %zu", (void *)(p + 1), al);
        Buf b{p, n * ty.sz, (unsigned char)t.draw(256), &ty}; for (auto &o : live) PBT_CHECK(p + b.n <= o.p || o.p + o.n <= p || !b.n || !o.n, "two live buffers overlap"); for (size_t i = 0; i < b.n; ++i) p[i] = (unsigned char)(b.fill + i * 5); live.push_back(b); mx = std::max(mx, live.size()); }
    for (auto &b : live) chk(b); for (auto &b : live) b.ty->fr(b.p); ctx.nontrivial = mx >= 2; }

template<class D, class C> static void splitCase(Tape &t, Ctx &ctx, const char *nm, bool getClean) {
    bool big = t.chance(1, 150); size_t nd = getClean ? 0 : t.draw(big ? 60000 : t.chance(1, 5) ? 300 : 24), nc = t.draw(big ? 60000 : t.chance(1, 5) ? 300 : 24), dB = nd * sizeof(D), cB = nc * sizeof(C), need = roundUp<sizeof(C)>(dB) + cB, mem = need + (t.chance(1, 3) ? 0 : t.draw(t.chance(1, 2) ? 3 * sizeof(C) : big ? 300000 : 2000)); if (mem % sizeof(C) && roundDown<sizeof(C)>(mem) < need) mem = need;
    PBT_CHECK(roundUp<sizeof(C)>(dB) >= dB && roundUp<sizeof(C)>(dB) < dB + sizeof(C) && roundUp<sizeof(C)>(dB) % sizeof(C) == 0 && roundDown<sizeof(C)>(mem) % sizeof(C) == 0 && roundDown<sizeof(C)>(mem) <= mem && roundDown<sizeof(C)>(mem) + sizeof(C) > mem, "rounding is wrong");
    std::byte *base = mallocAligned<std::byte>(mem + 64, 96), *m = base; memset(m + mem, 0x5a, 64); size_t dirty0 = t.chance(1, 4) ? (t.chance(1, 2) ? 0 : mem) : t.draw(mem + 1), dirty = dirty0; int rounds = 1 + (t.chance(1, 2) ? 0 : t.draw(3)); ctx.note(strf("%s%s: %zu + %zu objects in %zu bytes, %zu dirty", getClean ? "clean memory of " : "split ", nm, nd, nc, mem, dirty)); ctx.label(nm); ctx.nontrivial = dirty0 && nc;
    RngSrc rs(t.draw(0)); for (size_t i = 0; i < dirty; ++i) m[i] = (std::byte)rs.draw(255); for (size_t i = dirty; i < mem; ++i) m[i] = (std::byte)0xFF;
    for (int r = 0; r < rounds; ++r) { D *dp = nullptr; C *cp = nullptr; size_t was = dirty; if (getClean) { getCleanMemory(m, mem, dirty, cp, nc); dp = (D *)m; } else splitMemory(m, mem, dirty, dp, nd, cp, nc);
        std::byte *db = (std::byte *)dp, *cb = (std::byte *)cp; PBT_CHECK(db >= m && db + dB <= m + mem && cb >= m && cb + cB <= m + mem, "a region leaves the buffer"); PBT_CHECK(db + dB <= cb || cb + cB <= db || !nd || !nc, "the regions overlap: %zu bytes at %td, %zu bytes at %td", dB, db - m, cB, cb - m); PBT_CHECK((cb - m) % sizeof(C) == 0, "the clean region starts at offset %td, not a multiple of %zu", cb - m, sizeof(C));
        for (size_t i = 0; i < cB; ++i) PBT_CHECK(cb[i] == (std::byte)0xFF, "byte %zu of the clean region is not clean (buffer %zu, %zu dirty)", i, mem, was); PBT_CHECK(dirty <= was, "the dirty prefix grew from %zu to %zu", was, dirty); for (size_t i = dirty; i < mem; ++i) PBT_CHECK(m[i] == (std::byte)0xFF, "byte %zu lies behind the dirty prefix of %zu and is not clean", i, dirty);
        for (size_t i = 0; i < 64; ++i) PBT_CHECK(m[mem + i] == (std::byte)0x5a, "wrote past the buffer");
        // a user dirties its dirty objects, and may leave the clean region as it found it
        memset(db, 0x11, dB); dirty = std::max<size_t>(dirty, (db - m) + dB); if (t.chance(1, 2)) { nc = nc ? t.draw(nc) + (t.chance(1, 2)) : 0; nc = std::min(nc, (roundDown<sizeof(C)>(mem) - roundUp<sizeof(C)>(dB)) / sizeof(C)); cB = nc * sizeof(C); } }
    freeAligned(base); }
template<class D, class C> static void splitBoth(Tape &t, Ctx &ctx, const char *nm) { if (t.chance(1, 3)) splitCase<D, C>(t, ctx, nm, true); else splitCase<D, C>(t, ctx, nm, false); }
PBT_PROP(split_memory, 4) { switch (t.draw(7)) { case 0: splitBoth<double, char>(t, ctx, "double+char"); break; case 1: splitBoth<int, int>(t, ctx, "int+int"); break; case 2: splitBoth<char, double>(t, ctx, "char+double"); break; case 3: splitBoth<float, B12>(t, ctx, "float+12 bytes"); break; case 4: splitBoth<double, B96>(t, ctx, "double+96 bytes"); break; case 5: splitBoth<B3, int16_t>(t, ctx, "3 bytes+short"); break; default: splitBoth<uint64_t, uint8_t>(t, ctx, "uint64+uint8"); } }

PBT_PROP(bitmap, 4) {
    struct M { BitMap *b; uint64_t n; std::set<uint64_t> s; }; std::vector<M> ms; int ops = 1 + t.draw(25), n0 = 1 + t.draw(2); uint64_t maxBits = t.chance(1, 3) ? 5000 : 200; if (t.chance(1, 100)) maxBits = t.chance(1, 2) ? 200000 : 10000000;
    auto mk = [&](uint64_t n) { M m{new BitMap(n), n, {}}; m.b->reset(); ms.push_back(m); }; for (int i = 0; i < n0; ++i) mk(t.chance(1, 4) ? 64 * (1 + t.draw(4)) : 1 + t.draw(maxBits));
    auto verify = [&](M &m, const char *w) { auto it = m.s.begin(); for (uint64_t i = 0; i < m.n; ++i) { bool want = it != m.s.end() && *it == i; if (want) ++it; PBT_CHECK(m.b->get_bit(i) == want, "after %s: bit %llu of %llu is %d", w, (unsigned long long)i, (unsigned long long)m.n, m.b->get_bit(i)); } };
    auto verifyNext = [&](M &m, uint64_t p) { auto it = m.s.upper_bound(p); long want = it == m.s.end() ? -1 : (long)*it, got = m.b->get_next_bit(p); PBT_CHECK(got == want, "get_next_bit(%llu) of %llu bits is %ld, expected %ld", (unsigned long long)p, (unsigned long long)m.n, got, want); };
    for (int k = 0; k < ops; ++k) { M &m = ms[t.draw(ms.size())]; switch (t.weighted({6, 3, 6, 2, 1, 2, 1, 1, 3})) {
        case 0: { uint64_t p = t.draw(m.n); m.b->set_bit(p); m.s.insert(p); ctx.note(strf(" set %llu", (unsigned long long)p)); break; }
        case 1: { uint64_t p = t.draw(m.n); m.b->set_bit_atomic(p); m.s.insert(p); ctx.note(strf(" set! %llu", (unsigned long long)p)); break; }
        case 2: { uint64_t p = t.draw(m.n); verifyNext(m, p); break; }
        case 3: { uint64_t p = t.draw(m.n); PBT_CHECK(m.b->get_bit(p) == (m.s.count(p) > 0), "get_bit(%llu) is wrong", (unsigned long long)p); break; }
        case 4: m.b->reset(); m.s.clear(); ctx.note(" reset"); break;
        case 5: { M c{new BitMap(*m.b), m.n, m.s}; ctx.note(" copy"); if (ms.size() < 5) ms.push_back(c); else { verify(c, "copying"); delete c.b; } break; }
        case 6: { M &d = ms[t.draw(ms.size())]; ctx.note(&d == &m ? " self-assign" : " assign"); *d.b = *m.b; d.n = m.n; d.s = m.s; break; }
        case 7: { for (M &d : ms) if (&d != &m && (d.n + 63) / 64 == (m.n + 63) / 64) { d.b->copy_from(m.b); d.n = m.n; d.s = m.s; ctx.note(" copy_from"); break; } break; }
        default: { int nt = 2 + t.draw(7); std::vector<uint64_t> ps; uint64_t c = 1 + t.draw(400); for (uint64_t i = 0; i < c; ++i) ps.push_back(t.chance(1, 2) ? t.draw(m.n) : (i * 7) % m.n); long cn = ps.size(); BitMap *b = m.b; ctx.note(strf(" %ld bits by %d threads", cn, nt)); ctx.label("concurrent");
            #pragma omp parallel for num_threads(nt) schedule(static, 1)
            for (long i = 0; i < cn; ++i) b->set_bit_atomic(ps[i]);
            m.s.insert(ps.begin(), ps.end()); } } if (t.chance(1, 3)) { int w = t.draw(ms.size()); verify(ms[w], "an operation"); } }
    for (M &m : ms) { verify(m, "the history"); long p = m.b->get_bit(0) ? 0 : m.b->get_next_bit(0); auto it = m.s.begin(); while (it != m.s.end()) { PBT_CHECK(p == (long)*it, "walking the set bits meets %ld instead of %llu", p, (unsigned long long)*it); p = m.b->get_next_bit(p); ++it; } PBT_CHECK(p == -1, "walking the set bits does not end"); }
    for (M &m : ms) delete m.b; ctx.nontrivial = ops > 3; }
PBT_PROP(bitmap_concurrent, 2) {    // all threads hammer the same words
    uint64_t n = 64 * (1 + t.draw(6)); int nt = 2 + t.draw(7), reps = 40 + t.draw(300); ctx.note(strf("%d threads set all of %llu bits, %d times", nt, (unsigned long long)n, reps)); ctx.nontrivial = true; int got = 0; std::vector<std::unique_ptr<BitMap>> bs; for (int r = 0; r < reps; ++r) { bs.emplace_back(new BitMap(n)); bs.back()->reset(); }
    #pragma omp parallel num_threads(nt)
    { int id = omp_get_thread_num(), k = omp_get_num_threads(); if (id == 0) got = k; for (int r = 0; r < reps; ++r) for (uint64_t i = id; i < n; i += k) bs[r]->set_bit_atomic(i); }
    if (got < 2) throw pbt::Discard{"one thread"}; for (int r = 0; r < reps; ++r) for (uint64_t i = 0; i < n; ++i) PBT_CHECK(bs[r]->get_bit(i), "bit %llu of %llu, set by one of %d threads, is lost", (unsigned long long)i, (unsigned long long)n, nt); }
PBT_PROP(bitmap_large, 1) {         // positions beyond 2^31 and 2^32; only the words around the probed positions are touched
    uint64_t n = (1ull << 31) + t.draw(64) * 8192 + ((t.chance(1, 2)) ? (1ull << 31) + t.draw(1 << 20) : 0) + 65536; BitMap b(n); uint64_t *d = b.data(); uint64_t hi = n - 8192 - t.draw(4096); size_t w0 = hi / 64, w1 = t.chance(1, 2) ? (n + 63) / 64 : std::min<uint64_t>(w0 + 40, (n + 63) / 64); bool toEnd = w1 == (n + 63) / 64; for (size_t w = w0; w < w1; ++w) d[w] = 0; std::set<uint64_t> s; int k = 1 + t.draw(6); ctx.note(strf("%llu bits, around %llu:", (unsigned long long)n, (unsigned long long)hi)); uint64_t last = w0 * 64;
    for (int i = 0; i < k; ++i) { uint64_t p = toEnd && t.chance(1, 3) ? n - 1 - t.draw(70) : w0 * 64 + t.draw((w1 - w0 - 1) * 64); if (t.chance(1, 2)) b.set_bit(p); else b.set_bit_atomic((long)p); s.insert(p); ctx.note(strf(" %llu", (unsigned long long)(p - hi))); } for (uint64_t p = w0 * 64; p < (toEnd ? n : (w1 - 1) * 64); ++p) PBT_CHECK(b.get_bit(p) == (s.count(p) > 0), "bit %llu is %d", (unsigned long long)p, b.get_bit(p));
    while (true) { auto it = s.upper_bound(last); if (it == s.end()) { if (toEnd) PBT_CHECK(b.get_next_bit(last) == -1, "get_next_bit(%llu) is %ld, no later bit is set", (unsigned long long)last, b.get_next_bit(last)); break; } long g = b.get_next_bit(last); PBT_CHECK(g == (long)*it, "get_next_bit(%llu) is %ld, expected %llu", (unsigned long long)last, g, (unsigned long long)*it); last = *it; } ctx.nontrivial = k > 1; ctx.label(n > (1ull << 32) ? "beyond 2^32" : "beyond 2^31"); }

template<class IT, class NT> static void splitTuples(Tape &t, Ctx &ctx) {
    bool big = t.chance(1, 60); int64_t r = t.range(1, big ? 5000 : t.chance(1, 4) ? 60 : 12), c = t.range(1, big ? 80000 : t.chance(1, 4) ? 60 : 12); ValSpec vs; HMat m = genMat(t, r, c, big ? 4000 : 80 + r * 2, vs, t.chance(1, 3)); int k = 1 + t.draw(big ? 80 : 9); ctx.note(strf("%ldx%ld, %ld entries, %d pieces", (long)r, (long)c, (long)m.nnz(), k)); int64_t per = std::max<int64_t>(1, r / k);
    typedef std::map<std::pair<int64_t, int64_t>, NT> Mp; std::vector<Mp> want(k); for (int64_t i = 0; i < r; ++i) for (int64_t q = m.ptr[i]; q < m.ptr[i + 1]; ++q) want[std::min<int64_t>(i / per, k - 1)][{i, m.col[q]}] = (NT)m.val[q]; int nonempty = 0; for (auto &w : want) nonempty += !w.empty(); ctx.nontrivial = nonempty > 1;
    auto cmp = [&](const char *w, SplitTuples<IT, NT> &s, bool local) { PBT_CHECK((int64_t)s.rows == r && (int64_t)s.cols == c && (int64_t)s.nnz == m.nnz() && s.splits == k && (int)s.splitTuples.size() == k, "%s: wrong shape", w); for (int x = 0; x < k; ++x) { Mp got; for (auto &e : s.splitTuples[x]) { int64_t row = (int64_t)std::get<0>(e) + (local ? x * per : 0); PBT_CHECK(got.insert({{row, (int64_t)std::get<1>(e)}, std::get<2>(e)}).second, "%s: piece %d holds (%ld,%ld) twice", w, x, (long)row, (long)std::get<1>(e)); } PBT_CHECK(got == want[x], "%s: piece %d of %d holds %zu entries, not the %zu of its rows", w, x, k, got.size(), want[x].size()); } };
    CSR<IT, NT> a; kernimpl::toCSR(m, a); SplitTuples<IT, NT> s(a, k); cmp("SplitTuples(CSR)", s, true); CSC<IT, NT> b; kernimpl::toCSC(gen::transpose(m), b, r); SplitTuples<IT, NT> u(b, k); cmp("SplitTuples(CSC)", u, false); }
PBT_PROP(split_tuples, 2) { if (t.chance(1, 2)) splitTuples<int32_t, double>(t, ctx); else splitTuples<int64_t, int64_t>(t, ctx); }

static int g_dead[8]; template<int K> struct Cnt { int v; ~Cnt() { ++g_dead[K]; } };
PBT_PROP(small_helpers, 2) {
    ctx.nontrivial = true; switch (t.draw(6)) {
    case 0: { int m = 1 + t.draw(t.chance(1, 60) ? 700 : 30), n = 1 + t.draw(t.chance(1, 60) ? 700 : 30); ctx.note(strf("2-D array %dx%d", m, n)); auto **a = allocate2D<int64_t, int>(m, n); std::set<int64_t *> rows; for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a[i][j] = i * 1000 + j; for (int i = 0; i < m; ++i) { PBT_CHECK(rows.insert(a[i]).second, "two rows share storage"); for (int j = 0; j < n; ++j) PBT_CHECK(a[i][j] == i * 1000 + j, "element %d,%d of a 2-D array changed", i, j); } deallocate2D(a, m); break; }
    case 1: { int n[8]; for (int &x : n) x = 1 + t.draw(5); memset(g_dead, 0, sizeof g_dead); int k = 1 + t.draw(8); ctx.note(strf("delete %d arrays", k)); auto *a = new Cnt<0>[n[0]]; auto *b = new Cnt<1>[n[1]]; auto *c = new Cnt<2>[n[2]]; auto *d = new Cnt<3>[n[3]]; auto *e = new Cnt<4>[n[4]]; auto *f = new Cnt<5>[n[5]]; auto *g = new Cnt<6>[n[6]]; auto *h = new Cnt<7>[n[7]];
        switch (k) { case 1: DeleteAll(a); break; case 2: DeleteAll(a, b); break; case 3: DeleteAll(a, b, c); break; case 4: DeleteAll(a, b, c, d); break; case 5: DeleteAll(a, b, c, d, e); break; case 6: DeleteAll(a, b, c, d, e, f); break; case 7: DeleteAll(a, b, c, d, e, f, g); break; default: DeleteAll(a, b, c, d, e, f, g, h); }
        for (int i = 0; i < 8; ++i) PBT_CHECK(g_dead[i] == (i < k ? n[i] : 0), "DeleteAll of %d arrays destroyed %d of the %d elements of array %d", k, g_dead[i], n[i], i); if (k < 8) delete[] h; if (k < 7) delete[] g; if (k < 6) delete[] f; if (k < 5) delete[] e; if (k < 4) delete[] d; if (k < 3) delete[] c; if (k < 2) delete[] b; break; }
    case 2: { unsigned d = 1u << t.draw(31), n = (unsigned)t.draw(1ull << 32); ctx.note(strf("%u by %u", n, d)); PBT_CHECK(getModulo(n, d) == n % d, "getModulo(%u,%u) is %u", n, d, getModulo(n, d)); PBT_CHECK(getDivident(n, d) == n / d, "getDivident(%u,%u) is %u", n, d, getDivident(n, d)); break; }
    case 3: { size_t n = t.draw(t.chance(1, 100) ? 1000000 : 3000); ctx.note(strf("initialised allocation of %zu", n)); int nt = 1 + t.draw(8); omp_set_num_threads(nt); double *p = my_malloc<double>(n); for (size_t i = 0; i < n; ++i) PBT_CHECK(p[i] == 0, "element %zu of a fresh array is not initialised", i); int64_t *q = my_malloc<int64_t>(n, false); for (size_t i = 0; i < n; ++i) q[i] = i; my_free(p, q); std::vector<int> v(n % 50); int b = t.range(-5, 5); ::iota(v.begin(), v.end(), b); for (size_t i = 0; i < v.size(); ++i) PBT_CHECK(v[i] == b + (int)i, "iota is wrong at %zu", i); break; }
    case 4: { double eps = t.chance(1, 2) ? 0.001 : 1e-6, a = t.range(-1000000, 1000000) / 1000.0, b = t.chance(1, 4) ? a : a * (1 + (t.range(-4, 4)) * eps / 2.5) + t.range(-3, 3) * eps / 2.5; ctx.note(strf("tolerant equality of %g and %g", a, b)); bool want = a == b || std::fabs(a - b) < eps || std::fabs(a - b) / std::max(std::fabs(a), std::fabs(b)) < eps; PBT_CHECK(ErrorTolerantEqual<double>(eps)(a, b) == want && ErrorTolerantEqual<double>(eps)(b, a) == want, "ErrorTolerantEqual(%g) of %.17g and %.17g is not %d", eps, a, b, want); PBT_CHECK(absdiff<double>()(a, b) == std::fabs(a - b) && myidentity<double>()(a) == a, "absdiff or myidentity is wrong"); break; }
    default: { size_t n = 1 + t.draw(t.chance(1, 60) ? 3000 : 30); std::vector<HeapEntry<int, double>> h(n); std::vector<HeapEntry<int, void>> g(n); std::multiset<int> keys; for (size_t i = 0; i < n; ++i) { int k = t.draw(12); h[i].key = k; h[i].runr = i; h[i].value = i; g[i].key = k; g[i].runr = i; keys.insert(k); } ctx.note(strf("heap of %zu entries", n)); std::make_heap(h.begin(), h.end()); std::make_heap(g.begin(), g.end());
        for (size_t k = n; k > 0; --k) { PBT_CHECK(h[0].key == *keys.begin() && g[0].key == *keys.begin(), "the top of the heap is key %d, the smallest is %d", h[0].key, *keys.begin()); keys.erase(keys.begin()); std::pop_heap(h.begin(), h.begin() + k); std::pop_heap(g.begin(), g.begin() + k); } for (size_t i = 1; i < n; ++i) PBT_CHECK((h[i] > h[i - 1]) == (h[i].key < h[i - 1].key) && (h[i] == h[i - 1]) == (h[i].key == h[i - 1].key) && (h[i] < h[i - 1]) == (h[i].key > h[i - 1].key), "heap entries compare wrongly"); } } }
