// C23: the bundled sorting routines against std::stable_sort.
#include <array>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <functional>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <iterator>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <set>
#include <type_traits>
#include <utility>
#include "cpp-TimSort/include/gfx/timsort.hpp"
#include "timsort-cpp/include/tim/timsort.h"
#define pdqsort pdqsort_top      // vergesort calls its own pdqsort unqualified
#include "pdqsort/pdqsort.h"
#undef pdqsort
#include "radix_sort/radix_sort.hpp"
#include "vergesort/vergesort.h"
#define vergesort vergesort_split
#undef VERGESORT_VERGESORT_H_
#include "vergesort/include/vergesort/vergesort.h"
#undef vergesort
#include "pbt.h"
using namespace pbt;
#if SORTS == 1
namespace pbt { const char *g_rule =
    "one case = one array (0 to about 70 000 elements: random, few distinct keys, sawtooth, organ pipe, almost sorted, concatenated ascending/descending/equal runs of chosen lengths, interleaved blocks that gallop, equal keys, an adversary that answers comparisons so as to spoil the pivots) "
    "of one element type (int, double, string, small to large records with identity, move-only, move-tracking), one iterator kind (pointer, vector, deque, reverse, list), one comparator (none, less, greater, by key, by coarse key) and one routine (gfx timsort, tim timsort, pdqsort, pdqsort_branchless, both vergesorts, radix_sort, linear_sort, counting_sort); "
    "the result must be the ordered permutation, equal to std::stable_sort where the routine is stable, with no element read after it was moved from, nothing outside the range touched and, for the comparison sorts over random access, a number of comparisons within a multiple of n log n. Non-trivial: at least three elements and an input that is not already in order; distinct by the list of generator draws"; }
#endif

// ---- inputs: keys only, the element type is built around them
static std::vector<int64_t> genKeys(Tape &t, size_t maxN, Ctx &ctx) {
    size_t n; switch (t.weighted({6, 5, 3, 1})) { case 0: n = t.draw(41); break; case 1: n = t.draw(std::min<size_t>(maxN, 400) + 1); break;
        case 2: { static const int64_t th[] = {16, 24, 31, 32, 33, 63, 64, 65, 79, 80, 81, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4096}; n = (t.chance(1, 3) ? t.pick(dictionary()) : th[t.draw(25)]) + t.draw(3); break; } default: if (maxN >= 3000 && t.chance(1, 30)) maxN = 70000; n = t.draw(maxN + 1); }
    n = std::min(n, maxN); std::vector<int64_t> v(n); RngSrc rs(n <= 48 ? 0 : t.draw(0)); Src &s = n <= 48 ? (Src &)t : (Src &)rs; int kind = t.weighted({5, 3, 2, 2, 4, 6, 4, 2, 1, 2}); static const char *kn[] = {"random", "few keys", "sawtooth", "organ pipe", "almost sorted", "runs", "blocks", "reversed", "equal", "sorted + tail"}; ctx.label(kn[kind]); ctx.note(strf("%s, n=%zu ", kn[kind], n));
    switch (kind) {
    case 0: for (auto &x : v) x = s.draw(n <= 48 ? 100 : 4 * n); break;
    case 1: { uint64_t k = 1 + t.draw(4); for (auto &x : v) x = s.draw(k + 1); break; }
    case 2: { uint64_t p = 1 + t.draw(std::max<size_t>(1, n)); bool dn = t.chance(1, 2); for (size_t i = 0; i < n; ++i) v[i] = dn ? p - i % p : i % p; break; }
    case 3: for (size_t i = 0; i < n; ++i) v[i] = std::min(i, n - 1 - i); if (t.chance(1, 2)) for (auto &x : v) x = -x; break;
    case 4: { bool dn = t.chance(1, 3); for (size_t i = 0; i < n; ++i) v[i] = (dn ? n - i : i) / (1 + (kind & 1)); int k = t.draw(12); for (int i = 0; i < k && n > 1; ++i) { if (s.chance(1, 2)) std::swap(v[s.draw(n)], v[s.draw(n)]); else v[s.draw(n)] = s.draw(n); } break; }
    case 5: { size_t i = 0; int style = t.draw(5); uint64_t a = 1 + t.draw(40), b = 1 + t.draw(60); int dir = t.draw(3); uint64_t ratio = 30 + t.draw(34); size_t cut = n - (style == 4 ? s.draw(n / 2 + 1) : 0); if (style == 4) dir = 0; while (i < n) { uint64_t len = style == 0 ? 1 + s.draw(70) : style == 1 ? a : style == 2 ? 16 + s.draw(20) * s.draw(20) : a; if (style == 3) { uint64_t c = a + b; a = b; b = c > 3000 ? 1 + s.draw(64) : c; } if (style == 4) { uint64_t rem = (i < cut ? cut : n) - i; len = rem * ratio / 100 + s.draw(2); if (i < cut && rem < 40) len = rem; else if (i >= cut || s.chance(1, 40)) len = 1 + s.draw(rem); }   // growing and shrinking runs stress the merge invariants
            int64_t x = s.draw(2 * n + 1); if (style == 4 && i && x >= v[i - 1]) x = v[i - 1] - 1 - (int64_t)s.draw(n); int d = dir == 0 ? 1 : dir == 1 ? -1 : (int)s.draw(3) - 1; for (uint64_t k = 0; k < len && i < n; ++k) { v[i++] = x; x += d * (int64_t)s.draw(3); } } break; }
    case 6: { size_t w = std::max<uint64_t>(1, 1 + t.draw(3)), nr = 2 + t.draw(4); std::vector<std::vector<int64_t>> r(nr); int64_t x = 0; size_t i = 0; while (i < n) { size_t q = s.draw(nr), len = 1 + s.draw(8 * w * w); for (size_t k = 0; k < len && i < n; ++k, ++i) { x += s.draw(3) == 0; r[q].push_back(x); } x += s.draw(2); } i = 0; for (auto &q : r) for (int64_t y : q) v[i++] = y; break; }   // each run takes whole blocks of the final order
    case 7: for (size_t i = 0; i < n; ++i) v[i] = (n - i) / (1 + s.draw(1)); break;
    case 8: break;
    default: { size_t tail = n ? 1 + t.draw(std::min<size_t>(n, 40)) : 0; for (size_t i = 0; i < n; ++i) v[i] = i + tail < n ? (int64_t)i : (int64_t)s.draw(n); break; } }
    if (ctx.verbose && n <= 64) { std::string d = " keys:"; for (int64_t x : v) d += " " + std::to_string(x); ctx.note(d); }
    return v; }

template<int PAD> struct Rec { int32_t key; uint32_t id; unsigned char pad[PAD]; };
struct MoveOnly { std::unique_ptr<std::pair<int64_t, uint32_t>> p; };
struct Tracked { int64_t key = 0; uint32_t id = 0; bool live = true; Tracked() {} Tracked(int64_t k, uint32_t i) : key(k), id(i) {}
    Tracked(const Tracked &o) : key(o.key), id(o.id) { if (!o.live) pbt::fail("an element that was moved from is copied"); }
    Tracked(Tracked &&o) : key(o.key), id(o.id) { if (!o.live) pbt::fail("an element that was moved from is moved again"); o.live = false; o.key = -1; o.id = ~0u; }
    Tracked &operator=(const Tracked &o) { if (!o.live) pbt::fail("an element that was moved from is copied"); key = o.key; id = o.id; live = true; return *this; }
    Tracked &operator=(Tracked &&o) { if (&o == this) return *this; if (!o.live) pbt::fail("an element that was moved from is moved again"); key = o.key; id = o.id; live = true; o.live = false; o.key = -1; o.id = ~0u; return *this; } };

// how each element type carries a key and an identity
template<class T> struct El;
template<> struct El<int> { static int make(int64_t k, uint32_t) { return (int)k; } static int64_t key(int x) { return x; } static int64_t id(int) { return -1; } };
template<> struct El<int64_t> { static int64_t make(int64_t k, uint32_t) { return k; } static int64_t key(int64_t x) { return x; } static int64_t id(int64_t) { return -1; } };
template<> struct El<unsigned char> { static unsigned char make(int64_t k, uint32_t) { return (unsigned char)k; } static int64_t key(unsigned char x) { return x; } static int64_t id(unsigned char) { return -1; } };
template<> struct El<double> { static double make(int64_t k, uint32_t) { return k * 0.5; } static int64_t key(double x) { return (int64_t)(x * 2); } static int64_t id(double) { return -1; } };
template<> struct El<std::string> { static std::string make(int64_t k, uint32_t) { char b[48]; snprintf(b, sizeof b, (k % 3) ? "%012lld" : "%012lld a longer string on heap", (long long)k + 100000000); return b; } static int64_t key(const std::string &x) { return x.size() < 12 ? -999999999 : atoll(x.c_str()) - 100000000; } static int64_t id(const std::string &) { return -1; } };
template<int P> struct El<Rec<P>> { static Rec<P> make(int64_t k, uint32_t i) { Rec<P> r; r.key = k; r.id = i; for (int q = 0; q < P; ++q) r.pad[q] = (unsigned char)(i * 7 + q); return r; } static int64_t key(const Rec<P> &x) { return x.key; } static int64_t id(const Rec<P> &x) { for (int q = 0; q < P; ++q) if (x.pad[q] != (unsigned char)(x.id * 7 + q)) pbt::fail("a record was torn"); return x.id; } };
template<> struct El<MoveOnly> { static MoveOnly make(int64_t k, uint32_t i) { MoveOnly m; m.p.reset(new std::pair<int64_t, uint32_t>(k, i)); return m; } static int64_t key(const MoveOnly &x) { if (!x.p) pbt::fail("an element that was moved from is read"); return x.p->first; } static int64_t id(const MoveOnly &x) { if (!x.p) pbt::fail("an element was lost"); return x.p->second; } };
template<> struct El<Tracked> { static Tracked make(int64_t k, uint32_t i) { return Tracked(k, i); } static int64_t key(const Tracked &x) { if (!x.live) pbt::fail("an element that was moved from is read"); return x.key; } static int64_t id(const Tracked &x) { return x.id; } };

static uint64_t g_cmps;
template<class T> struct Cmp { int mode; bool operator()(const T &a, const T &b) const { ++g_cmps; int64_t x = El<T>::key(a), y = El<T>::key(b); switch (mode) { case 0: return x < y; case 1: return x > y; case 2: return (x >> 3) < (y >> 3); default: return (x % 5) < (y % 5); } } };
namespace std { template<> struct less<Tracked> { bool operator()(const Tracked &a, const Tracked &b) const { return Cmp<Tracked>{0}(a, b); } }; template<> struct less<MoveOnly> { bool operator()(const MoveOnly &a, const MoveOnly &b) const { return Cmp<MoveOnly>{0}(a, b); } };
    template<int P> struct less<Rec<P>> { bool operator()(const Rec<P> &a, const Rec<P> &b) const { return Cmp<Rec<P>>{0}(a, b); } }; }
template<int P> static bool operator<(const Rec<P> &a, const Rec<P> &b) { return a.key < b.key; } template<int P> static bool operator>(const Rec<P> &a, const Rec<P> &b) { return a.key > b.key; }
static bool operator<(const Tracked &a, const Tracked &b) { return Cmp<Tracked>{0}(a, b); } static bool operator<(const MoveOnly &a, const MoveOnly &b) { return Cmp<MoveOnly>{0}(a, b); }
static bool operator>(const Tracked &a, const Tracked &b) { return Cmp<Tracked>{1}(a, b); } static bool operator>(const MoveOnly &a, const MoveOnly &b) { return Cmp<MoveOnly>{1}(a, b); }

static const char *names[] = {"gfx::timsort", "tim::timsort", "pdqsort", "pdqsort_branchless", "vergesort", "vergesort (split headers)"};
template<class It, class C> static void callC(int a, It b, It e, C c) { switch (a) { case 0: gfx::timsort(b, e, c); break; case 1: tim::timsort(b, e, c); break; case 2: pdqsort_top(b, e, c); break; case 3: pdqsort_branchless(b, e, c); break; case 4: vergesort::vergesort(b, e, c); break; default: vergesort_split::vergesort_split(b, e, c); } }
template<class It> static void call0(int a, It b, It e) { switch (a) { case 0: gfx::timsort(b, e); break; case 1: tim::timsort(b, e); break; case 2: pdqsort_top(b, e); break; case 3: pdqsort_branchless(b, e); break; case 4: vergesort::vergesort(b, e); break; default: vergesort_split::vergesort_split(b, e); } }
// cmp: 0 none, 1 std::less, 2 std::greater, 3 ascending, 4 descending, 5 coarse, 6 residues
template<class T, class It> static void callAny(int a, int cmp, It b, It e) { if constexpr (std::is_arithmetic<T>::value) { if (cmp == 1) return callC(a, b, e, std::less<T>()); if (cmp == 2) return callC(a, b, e, std::greater<T>()); } else if (cmp == 1 || cmp == 2) return callC(a, b, e, Cmp<T>{cmp - 1}); if (cmp == 0) call0(a, b, e); else callC(a, b, e, Cmp<T>{cmp - 3}); }

template<class T> static void verify(const char *nm, bool stable, int mode, const std::vector<int64_t> &keys, const std::vector<T> &out) {
    auto lt = [&](int64_t x, int64_t y) { switch (mode) { case 0: return x < y; case 1: return x > y; case 2: return (x >> 3) < (y >> 3); default: return (x % 5) < (y % 5); } };
    size_t n = keys.size(); PBT_CHECK(out.size() == n, "%s: %zu elements of %zu", nm, out.size(), n); std::vector<std::pair<int64_t, int64_t>> ref(n), got(n); bool ids = false;
    for (size_t i = 0; i < n; ++i) { got[i] = {El<T>::key(out[i]), El<T>::id(out[i])}; ids |= got[i].second >= 0; } for (size_t i = 0; i < n; ++i) ref[i] = {El<T>::key(El<T>::make(keys[i], i)), ids ? (int64_t)i : -1};
    for (size_t i = 1; i < n; ++i) PBT_CHECK(!lt(got[i].first, got[i - 1].first), "%s: element %zu (key %ld) comes before element %zu (key %ld) of %zu", nm, i - 1, (long)got[i - 1].first, i, (long)got[i].first, n);
    if (stable) { std::stable_sort(ref.begin(), ref.end(), [&](auto &a, auto &b) { return lt(a.first, b.first); }); for (size_t i = 0; i < n; ++i) PBT_CHECK(ref[i] == got[i], "%s: place %zu of %zu holds key %ld of input element %ld, a stable sort puts key %ld of input element %ld there", nm, i, n, (long)got[i].first, (long)got[i].second, (long)ref[i].first, (long)ref[i].second); }
    else { std::sort(ref.begin(), ref.end()); std::sort(got.begin(), got.end()); for (size_t i = 0; i < n; ++i) PBT_CHECK(ref[i] == got[i], "%s: the result is not a permutation of the input: key %ld instead of %ld", nm, (long)got[i].first, (long)ref[i].first); } }
static void bound(const char *nm, size_t n) { if (n < 2) return; double lim = 8.0 * n * (std::log2((double)n) + 1) + 300; PBT_CHECK(g_cmps <= lim, "%s: %llu comparisons for %zu elements", nm, (unsigned long long)g_cmps, n); }

// WIDE: every container; otherwise vectors and, for the sorts that take them, lists
template<class T, bool WIDE> static void sortCase(Tape &t, Ctx &ctx, const char *tn, size_t maxN) {
    int a = t.draw(6), cmp = t.draw(7), cont = WIDE ? t.draw(a >= 4 ? 5 : 4) : a >= 4 && t.chance(1, 2) ? 4 : 1; ctx.note(strf("%s of %s, comparator %d, container %d; ", names[a], tn, cmp, cont)); std::vector<int64_t> keys = genKeys(t, maxN, ctx); size_t n = keys.size(); if (std::is_same<T, unsigned char>::value) for (auto &x : keys) x &= 255; ctx.label(names[a]); ctx.label(tn);
    int mode = cmp <= 1 ? 0 : cmp == 2 ? 1 : cmp - 3; bool counted = cmp >= 3; ctx.nontrivial = n > 2 && !std::is_sorted(keys.begin(), keys.end()); g_cmps = 0; bool stable = a < 2; std::vector<T> out;
    auto mk = [&](size_t i) { return El<T>::make(keys[i], i); };
    switch (cont) {
    case 0: if constexpr (WIDE) { std::unique_ptr<T[]> p(new T[n + 2]); p[0] = El<T>::make(77, 4000000); p[n + 1] = El<T>::make(77, 4000001); for (size_t i = 0; i < n; ++i) p[i + 1] = mk(i); callAny<T>(a, cmp, p.get() + 1, p.get() + 1 + n); PBT_CHECK(El<T>::key(p[0]) == El<T>::key(El<T>::make(77, 0)) && El<T>::key(p[n + 1]) == El<T>::key(El<T>::make(77, 0)), "%s changed an element outside the range", names[a]); for (size_t i = 0; i < n; ++i) out.push_back(std::move(p[i + 1])); } break;
    case 1: { out.reserve(n); for (size_t i = 0; i < n; ++i) out.push_back(mk(i)); callAny<T>(a, cmp, out.begin(), out.end()); break; }
    case 2: if constexpr (WIDE) { std::deque<T> d; for (size_t i = 0; i < n; ++i) d.push_back(mk(i)); callAny<T>(a, cmp, d.begin(), d.end()); for (auto &x : d) out.push_back(std::move(x)); } break;
    case 3: if constexpr (WIDE) { std::vector<T> v; for (size_t i = n; i-- > 0;) v.push_back(mk(i)); callAny<T>(a, cmp, v.rbegin(), v.rend()); for (size_t i = n; i-- > 0;) out.push_back(std::move(v[i])); } break;
    default: { counted = false; std::list<T> l; for (size_t i = 0; i < n; ++i) l.push_back(mk(i)); if (cmp == 0) { if (a == 4) vergesort::vergesort(l.begin(), l.end()); else vergesort_split::vergesort_split(l.begin(), l.end()); } else { Cmp<T> c{mode}; if (a == 4) vergesort::vergesort(l.begin(), l.end(), c); else vergesort_split::vergesort_split(l.begin(), l.end(), c); } for (auto &x : l) out.push_back(std::move(x)); } }
    verify<T>(names[a], stable, mode, keys, out); if (counted) bound(names[a], n); }

#if SORTS == 1
PBT_PROP(sort_int, 4) { sortCase<int, true>(t, ctx, "int", 6000); }
#endif
#if SORTS == 2
PBT_PROP(sort_uint8, 1) { sortCase<unsigned char, false>(t, ctx, "uint8", 3000); }
#endif
#if SORTS == 2
PBT_PROP(sort_int64, 1) { sortCase<int64_t, false>(t, ctx, "int64", 3000); }
#endif
#if SORTS == 2
PBT_PROP(sort_double, 1) { sortCase<double, false>(t, ctx, "double", 3000); }
#endif
#if SORTS == 3
PBT_PROP(sort_string, 1) { sortCase<std::string, false>(t, ctx, "string", 2000); }
#endif
#if SORTS == 4
PBT_PROP(sort_rec8, 5) { sortCase<Rec<1>, true>(t, ctx, "12-byte record", 6000); }
#endif
#if SORTS == 3
PBT_PROP(sort_rec40, 2) { sortCase<Rec<40>, false>(t, ctx, "48-byte record", 3000); }
#endif
#if SORTS == 3
PBT_PROP(sort_rec96, 1) { sortCase<Rec<96>, false>(t, ctx, "104-byte record", 2000); }
#endif
#if SORTS == 5
PBT_PROP(sort_moveonly, 2) { sortCase<MoveOnly, false>(t, ctx, "move-only", 3000); }
#endif
#if SORTS == 6
PBT_PROP(sort_tracked, 4) { sortCase<Tracked, true>(t, ctx, "move-tracked", 3000); }
#endif
#if SORTS == 2
// A comparator that fixes the keys as late as possible (McIlroy), so that every pivot is bad
PBT_PROP(sort_adversary, 1) {
    int a = t.draw(6); size_t n = 2 + (t.chance(1, 4) ? t.draw(6000) : t.draw(600)); ctx.label(std::string("adversary ") + names[a]); ctx.note(strf("%s against an adversary, n=%zu", names[a], n)); ctx.nontrivial = n > 2; std::vector<int> val(n, (int)n), idx(n); std::iota(idx.begin(), idx.end(), 0); if (t.chance(1, 3)) std::reverse(idx.begin(), idx.end()); int solid = 0, cand = 0, gas = n; g_cmps = 0;
    auto c = [&](int x, int y) { ++g_cmps; if (val[x] == gas && val[y] == gas) { if (x == cand) val[x] = solid++; else val[y] = solid++; } if (val[x] == gas) cand = x; else if (val[y] == gas) cand = y; return val[x] < val[y]; };
    callC(a, idx.begin(), idx.end(), std::function<bool(int, int)>(c)); std::vector<char> seen(n, 0); for (size_t i = 0; i < n; ++i) { PBT_CHECK(idx[i] >= 0 && (size_t)idx[i] < n && !seen[idx[i]], "%s: not a permutation", names[a]); seen[idx[i]] = 1; if (i) PBT_CHECK(val[idx[i - 1]] <= val[idx[i]], "%s: not ordered at %zu", names[a], i); } bound(names[a], n); }

#endif
#if SORTS >= 7
// ---- radix and counting sort
template<class K> struct KG;
// char is ordered as text (bytes above 127 last): only ASCII is generated
#define ARITH(T) template<> struct KG<T> { static T make(Tape &, Src &s, int st) { if (st == 0) return (T)(int64_t)s.draw(std::is_same<T, char>::value ? 128 : 200); if (st == 1) return (T)(int64_t)((int64_t)s.draw(4) - (std::is_signed<T>::value && !std::is_same<T, char>::value ? 2 : 0)); uint64_t r = s.draw(0); if (st == 3) r &= 0x00ff00ff00ff00ffull; if (std::is_same<T, char>::value) return (T)(r & 127); T x; if (std::is_floating_point<T>::value) { x = (T)(((int64_t)r) / (double)(1ull << (r % 50))); return x == 0 ? (T)1 : x; } return (T)r; } };
ARITH(uint8_t) ARITH(int8_t) ARITH(char) ARITH(uint16_t) ARITH(int16_t) ARITH(uint32_t) ARITH(int32_t) ARITH(unsigned long) ARITH(long) ARITH(unsigned long long) ARITH(long long) ARITH(float) ARITH(double) ARITH(char16_t) ARITH(char32_t) ARITH(wchar_t)
template<> struct KG<bool> { static bool make(Tape &, Src &s, int) { return s.draw(2); } };
template<class A, class B> struct KG<std::pair<A, B>> { static std::pair<A, B> make(Tape &t, Src &s, int st) { A a = KG<A>::make(t, s, st); B b = KG<B>::make(t, s, st); return {a, b}; } };
template<class A, class B, class C> struct KG<std::tuple<A, B, C>> { static std::tuple<A, B, C> make(Tape &t, Src &s, int st) { A a = KG<A>::make(t, s, st); B b = KG<B>::make(t, s, st); C c = KG<C>::make(t, s, st); return std::tuple<A, B, C>(a, b, c); } };
template<class A, size_t N> struct KG<std::array<A, N>> { static std::array<A, N> make(Tape &t, Src &s, int st) { std::array<A, N> a; for (auto &x : a) x = KG<A>::make(t, s, st); return a; } };
template<class K> struct KEl { K key; uint32_t id; uint32_t chk; };
template<class K> static void radixCase(Tape &t, Ctx &ctx, const char *kn, size_t maxN) {
    size_t n; switch (t.weighted({6, 3, 3})) { case 0: n = t.draw(41); break; case 1: n = t.draw(1200); break; default: { static const int64_t th[] = {254, 255, 256, 257, 510, 511, 512, 513, 65534, 65535, 65536, 65537}; n = th[t.draw(t.chance(1, 3) ? 12 : 8)] + t.draw(2); } } n = std::min(n, maxN);
    int st = t.draw(4), how = t.draw(5); RngSrc rs(n <= 48 ? 0 : t.draw(0)); Src &s = n <= 48 ? (Src &)t : (Src &)rs; static const char *hn[] = {"radix_sort", "radix_sort, key by reference", "linear_sort", "radix_sort, pointers", "radix_sort of plain keys"}; ctx.note(strf("%s on %s, n=%zu, keys style %d", hn[how], kn, n, st)); ctx.label(hn[how]); ctx.label(kn);
    typedef KEl<K> E; std::vector<E> in(n + 2), buf(n + 2); for (size_t i = 0; i < n + 2; ++i) { in[i].key = KG<K>::make(t, s, st); in[i].id = i; in[i].chk = i * 2654435761u; buf[i] = E(); buf[i].id = 0xabcdef; } std::vector<E> ref(in.begin() + 1, in.end() - 1); bool sorted = true; for (size_t i = 1; i < n; ++i) sorted &= !(ref[i].key < ref[i - 1].key); ctx.nontrivial = n > 2 && !sorted; E g0 = in[0], g1 = in[n + 1];
    std::stable_sort(ref.begin(), ref.end(), [](const E &a, const E &b) { return a.key < b.key; }); bool inBuf = false; const char *nm = hn[how];
    if (how == 4) { if constexpr (std::is_same<K, bool>::value) how = 0; else { std::vector<K> ks, kb(n); for (size_t i = 0; i < n; ++i) ks.push_back(in[i + 1].key); bool w = t.chance(1, 2) ? radix_sort(ks.begin(), ks.end(), kb.begin()) : linear_sort(ks.begin(), ks.end(), kb.begin()); auto &r = w ? kb : ks; for (size_t i = 0; i < n; ++i) PBT_CHECK(!(r[i] < ref[i].key) && !(ref[i].key < r[i]), "%s on %s: place %zu of %zu holds the wrong key", nm, kn, i, n); return; } }
    switch (how) { case 0: inBuf = radix_sort(in.begin() + 1, in.end() - 1, buf.begin() + 1, [](const E &e) { return e.key; }); break;
        case 1: inBuf = radix_sort(in.begin() + 1, in.end() - 1, buf.begin() + 1, [](const E &e) -> const K & { return e.key; }); break;
        case 2: inBuf = linear_sort(in.begin() + 1, in.end() - 1, buf.begin() + 1, [](const E &e) { return e.key; }); break;
        default: inBuf = radix_sort(in.data() + 1, in.data() + 1 + n, buf.data() + 1, [](const E &e) { return e.key; }); }
    const E *r = (inBuf ? buf : in).data() + 1; if (how == 2) { for (size_t i = 1; i < n; ++i) PBT_CHECK(!(r[i].key < r[i - 1].key), "%s on %s: not ordered at %zu of %zu", nm, kn, i, n); std::vector<char> seen(n + 2, 0); for (size_t i = 0; i < n; ++i) { PBT_CHECK(r[i].id >= 1 && r[i].id <= n && !seen[r[i].id] && r[i].chk == r[i].id * 2654435761u, "%s on %s: not a permutation", nm, kn); seen[r[i].id] = 1; } }
    else for (size_t i = 0; i < n; ++i) PBT_CHECK(r[i].id == ref[i].id && r[i].chk == ref[i].chk, "%s on %s: place %zu of %zu holds input element %u, a stable sort puts element %u there", nm, kn, i, n, r[i].id, ref[i].id);
    PBT_CHECK(in[0].id == g0.id && in[n + 1].id == g1.id && buf[0].id == 0xabcdef && buf[n + 1].id == 0xabcdef, "%s on %s wrote outside its ranges", nm, kn); }
#define RAD(name, K, N) PBT_PROP(radix_##name, 1) { radixCase<K>(t, ctx, #name, N); }
typedef std::pair<int8_t, uint16_t> P1; typedef std::pair<int32_t, double> P2; typedef std::tuple<uint8_t, int16_t, bool> T1; typedef std::tuple<int64_t, float, char> T2; typedef std::array<uint8_t, 3> A1; typedef std::array<int16_t, 2> A2;
#if SORTS == 7
RAD(u8, uint8_t, 70000) RAD(i8, int8_t, 70000) RAD(char, char, 2000) RAD(u16, uint16_t, 70000) RAD(i16, int16_t, 70000) RAD(u32, uint32_t, 70000) RAD(i32, int32_t, 70000) RAD(u64, unsigned long, 70000) RAD(i64, long, 70000) RAD(ull, unsigned long long, 2000) RAD(ll, long long, 2000) RAD(float, float, 70000) RAD(double, double, 70000) RAD(char16, char16_t, 2000) RAD(char32, char32_t, 2000) RAD(wchar, wchar_t, 2000) RAD(bool, bool, 3000)
#else
RAD(pair1, P1, 3000) RAD(pair2, P2, 3000) RAD(tuple1, T1, 3000) RAD(tuple2, T2, 3000) RAD(array1, A1, 3000) RAD(array2, A2, 3000)
PBT_PROP(counting, 1) { size_t n = t.chance(1, 4) ? (t.chance(1, 2) ? 255 : 65535) + t.draw(4) : t.draw(400); RngSrc rs(n <= 48 ? 0 : t.draw(0)); Src &s = n <= 48 ? (Src &)t : (Src &)rs; int lim = t.chance(1, 2) ? 256 : 3; typedef KEl<uint8_t> E; std::vector<E> in(n), out(n + 2); for (size_t i = 0; i < n; ++i) in[i] = {(uint8_t)s.draw(lim), (uint32_t)i, 1}; for (auto &o : out) o.id = 0xabcdef; auto ref = in; std::stable_sort(ref.begin(), ref.end(), [](const E &a, const E &b) { return a.key < b.key; }); ctx.nontrivial = n > 2; ctx.label("counting_sort"); ctx.note(strf("counting_sort, n=%zu, %d keys", n, lim));
    counting_sort(in.begin(), in.end(), out.begin() + 1, [](const E &e) { return e.key; }); for (size_t i = 0; i < n; ++i) PBT_CHECK(out[i + 1].id == ref[i].id, "counting_sort: place %zu of %zu holds element %u instead of %u", i, n, out[i + 1].id, ref[i].id); PBT_CHECK(out[0].id == 0xabcdef && out[n + 1].id == 0xabcdef, "counting_sort wrote outside its output");
    std::vector<int8_t> a(n), b(n), r; for (size_t i = 0; i < n; ++i) a[i] = (int8_t)(ref[i].id * 37 + 5); r = a; std::sort(r.begin(), r.end()); counting_sort(a.begin(), a.end(), b.begin()); PBT_CHECK(b == r, "counting_sort of plain signed keys is not ordered"); }
#endif
#endif
