// C12: accumulators against map / priority-queue models, over one buffer that is handed from user to user.
#include <numeric>
#include <cstring>
#include <cassert>
#include <tuple>
#include <array>
#include <ratio>
#include <limits>
#include "CSR.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "SPA.h"
#include "HeapEntry.h"
#include "mask_hash.h"
#include "pbt.h"
#include <map>
#include <set>
#include <queue>
using namespace pbt;
namespace pbt { const char *g_rule =
    "one case = a scratch buffer filled with garbage and 1-4 successive users of it (symbolic and numeric accumulators of one algorithm, as the products pair them); every user handles 1-5 rows (one case in 40: rows of thousands of keys), a row being a generated sequence of the operations its callers issue "
    "(insert/find/update/erase/gather/reset; allow, forbid, initialise; append/make/sink/pop) with colliding, wrapping, strided and random keys. After every operation the accumulator is compared with a map (or multiset) model, after every row it must be empty, "
    "and after every user the rest of the buffer it returned as clean must be all ones. Non-trivial: some row had at least 3 live keys (or a collision chain) and an operation on an absent key; distinct by the list of generator draws"; }

template<class K> static std::vector<K> genKeys(Tape &t, size_t n, uint64_t maxKey, size_t tableHint) {   // distinct keys in [0,maxKey]
    std::vector<K> v; std::set<uint64_t> seen; int style = t.weighted({3, 3, 2, 2, 1}); if (n > 400 && style != 2) style = 0; uint64_t runLen = 1 + t.draw(40); uint64_t base = t.draw(maxKey + 1), inv = 0; { uint64_t x = 107; for (int i = 0; i < 6; ++i) inv = inv ? inv * (2 - 107 * inv) : (x * 3) ^ 2, x = x; }
    uint64_t stride = 1ull << t.draw(n > 400 ? 2 : 12), ts = 16; while (ts < tableHint) ts <<= 1;
    for (size_t i = 0; i < n * 3 && v.size() < n; ++i) { uint64_t k;
        switch (style) { case 0: k = t.draw(std::min<uint64_t>(maxKey, 4 * n + 8) + 1); break; case 1: k = base % (maxKey + 1) + i * ts; break;      // one bucket
            case 2: k = base + i * stride; break;
            case 4: k = ((base + i % runLen) % ts * inv) % ts + ts * (i / runLen); break;      // a run of neighbouring buckets, then the same again, displaced past it
            default: { uint64_t slot = (ts - 1 - t.draw(4)); k = (slot * inv) % ts + ts * t.draw(4); } }                  // last buckets: chains wrap around
        k %= maxKey + 1; if (seen.insert(k).second) v.push_back((K)k); }
    for (uint64_t k = 0; v.size() < n && k <= maxKey; ++k) if (seen.insert(k).second) v.push_back((K)k);
    return v; }

struct Buf { std::byte *mem; size_t size, align, dirty; std::byte *guardLo, *base; size_t total; static const size_t G = 64;
    Buf(Tape &t, size_t sz, size_t al) : size(sz), align(al) { total = sz + al + 2 * G + 64; base = (std::byte *)malloc(total); uintptr_t p = (uintptr_t)base + G; p = (p + al - 1) / al * al; mem = (std::byte *)p;
        memset(base, 0xA5, total); Rng r(t.draw(0)); for (size_t i = 0; i < sz; ++i) mem[i] = (std::byte)r.next(); dirty = t.chance(1, 3) ? t.draw(sz / al + 1) * al : sz; memset(mem + dirty, 0xFF, sz - dirty); }
    ~Buf() { free(base); }
    void check(const char *who) { PBT_CHECK(dirty <= size, "%s reports %zu dirty bytes in a buffer of %zu", who, dirty, size);
        for (size_t i = dirty; i < size; ++i) PBT_CHECK(mem[i] == (std::byte)0xFF, "%s: byte %zu of %zu was handed over as clean (dirty prefix %zu) but holds %02x", who, i, size, dirty, (unsigned)mem[i]);
        for (std::byte *p = base; p < mem; ++p) PBT_CHECK(*p == (std::byte)0xA5, "%s wrote %zd bytes before its buffer", who, (ptrdiff_t)(mem - p));
        for (std::byte *p = mem + size; p < base + total; ++p) PBT_CHECK(*p == (std::byte)0xA5, "%s wrote %zd bytes past its buffer", who, (ptrdiff_t)(p - mem - size)); } };
static bool g_big;      // rows of thousands of keys instead of tens
static size_t upTo(size_t lim, size_t small, size_t big) { return std::min<size_t>(lim, g_big ? big : small) + 1; }
static int g_live; static bool g_absent;
static void live(size_t n) { g_live = std::max<int>(g_live, (int)n); }
template<class K, class V> struct Outs { std::vector<K> k; std::vector<V> v; K *kp; V *vp; Outs(size_t n) : k(n + 2, (K)77), v(n + 2, (V)77) { kp = k.data() + 1; vp = v.data() + 1; }
    void check(const char *who, const std::vector<std::pair<K, V>> &want) { size_t n = kp - (k.data() + 1); PBT_CHECK(n == want.size() && (size_t)(vp - (v.data() + 1)) == n, "%s gathered %zu keys and %zd values, expected %zu", who, n, (ptrdiff_t)(vp - (v.data() + 1)), want.size());
        for (size_t i = 0; i < n; ++i) PBT_CHECK(k[i + 1] == want[i].first && v[i + 1] == want[i].second, "%s gathered at %zu key %lld, expected key %lld (or a different value)", who, i, (long long)k[i + 1], (long long)want[i].first);
        PBT_CHECK(k[0] == (K)77 && v[0] == (V)77, "%s wrote before the output", who); for (size_t i = n + 1; i < k.size(); ++i) PBT_CHECK(k[i] == (K)77 && v[i] == (V)77, "%s wrote past its output", who); } };
template<class V> static V val(Tape &t) { return (V)t.draw(97); }

// ---- hash, numeric, masked caller: mask keys inserted, then looked up and updated, then gathered
template<class K, class V> static void hashNumericRow(Tape &t, HashAccumulator<K, V, bool> &h, size_t n, uint64_t maxKey) {
    h.resize(n); auto keys = genKeys<K>(t, n, maxKey, 4 * (n + 1)); auto pool = keys; auto other = genKeys<K>(t, 6, maxKey, 4 * (n + 1)); pool.insert(pool.end(), other.begin(), other.end());
    std::map<K, std::pair<bool, V>> m; for (K k : keys) { PBT_CHECK(h.insert(k), "hash: inserting new key %lld reported it as present", (long long)k); m[k] = {false, V()}; } live(n);
    if (n && t.chance(1, 4)) PBT_CHECK(!h.insert(keys[t.draw(n)]), "hash: inserting a present key succeeded");
    size_t ops = t.draw(3 * n + 4); for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; auto idx = h.find(k); bool in = m.count(k);
        PBT_CHECK((idx != h.NOT_FOUND) == in, "hash: key %lld is %s but find says otherwise", (long long)k, in ? "present" : "absent"); if (!in) { g_absent = true; continue; }
        auto &e = h[idx]; PBT_CHECK(e.key == k && e.value2 == m[k].first && (!e.value2 || e.value1 == m[k].second), "hash: entry of key %lld does not hold what was stored", (long long)k);
        if (t.chance(2, 3)) { V x = val<V>(t); e.value1 = x; e.value2 = true; m[k] = {true, x}; } }
    Outs<K, V> out(n); std::vector<std::pair<K, V>> want; int how = t.draw(2);
    if (how == 0) { for (K k : keys) if (m[k].first) want.push_back({k, m[k].second}); h.gather(out.kp, out.vp, keys.data(), keys.data() + n); out.check("hash gather(keys)", want); }
    else { h.template gather<K, V>(out.kp, out.vp); std::vector<std::pair<K, V>> got; size_t c = out.kp - (out.k.data() + 1); PBT_CHECK((size_t)(out.vp - (out.v.data() + 1)) == c && c <= n, "hash gather: %zu entries", c); for (size_t i = 0; i < c; ++i) got.push_back({out.k[i + 1], out.v[i + 1]}); std::sort(got.begin(), got.end());
        for (auto &e : m) if (e.second.first) want.push_back({e.first, e.second.second}); PBT_CHECK(got == want, "hash gather returned %zu entries, %zu are live (or values differ)", got.size(), want.size()); }
    for (K k : pool) PBT_CHECK(h.find(k) == h.NOT_FOUND, "hash: key %lld still present after the row was gathered", (long long)k); }
// ---- hash, numeric, complemented caller
template<class K, class V> static void hashNumericRowC(Tape &t, HashAccumulator<K, V, bool> &h, size_t nm, size_t fl, uint64_t maxKey) {
    h.resize(nm + fl); auto mk = genKeys<K>(t, nm, maxKey, 4 * (nm + fl + 1)); auto ok = genKeys<K>(t, fl + 2, maxKey, 4 * (nm + fl + 1)); auto pool = mk; pool.insert(pool.end(), ok.begin(), ok.end());
    std::map<K, std::pair<bool, V>> m; std::vector<K> order; for (K k : mk) { h.insert(k); m[k] = {false, V()}; }
    for (size_t o = 0; o < fl; ++o) { K k = pool[t.draw(pool.size())]; auto idx = h.findIdx(k); auto &e = h[idx]; bool in = m.count(k);
        PBT_CHECK((e.key != h.EMPTY) == in, "hash: slot of %s key %lld is %s", in ? "present" : "absent", (long long)k, in ? "empty" : "taken");
        if (!in) { g_absent = true; V x = val<V>(t); h.template insert<true>(idx, k, x, true); m[k] = {true, x}; order.push_back(k); }
        else { PBT_CHECK(e.key == k && e.value2 == m[k].first, "hash: flag of key %lld changed", (long long)k); if (e.value2) { PBT_CHECK(e.value1 == m[k].second, "hash: value of key %lld changed", (long long)k); V x = val<V>(t); e.value1 = x; m[k].second = x; } } }
    live(m.size()); Outs<K, V> out(order.size()); bool srt = t.draw(2); if (srt) { std::sort(order.begin(), order.end()); h.template gatherList<true>(out.kp, out.vp); } else h.template gatherList<false>(out.kp, out.vp);
    std::vector<std::pair<K, V>> want; for (K k : order) want.push_back({k, m[k].second}); out.check("hash gatherList", want);
    std::set<K> left(mk.begin(), mk.end()); // the callers now erase the mask keys; lookups cannot work before that, the gathered slots broke the chains
    (void)left; for (K k : mk) h.erase(k); }
// ---- hash, symbolic: general insert / erase / find
template<class K> static void hashSymbolicRow(Tape &t, HashAccumulator<K, void, void> &h, size_t n, uint64_t maxKey) {
    h.resize(n); auto keys = genKeys<K>(t, n, maxKey, 4 * (n + 1)); auto pool = keys; auto other = genKeys<K>(t, 4, maxKey, 4 * (n + 1)); pool.insert(pool.end(), other.begin(), other.end());
    std::set<K> m; bool mixed = t.chance(1, 3); if (!mixed) for (K k : keys) { PBT_CHECK(h.template insert<false>(k), "hash set: new key %lld reported as present", (long long)k); m.insert(k); } live(n);
    size_t ops = t.draw(4 * n + 5); for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = m.count(k); if (!in) g_absent = true;
        switch (t.weighted({3, mixed ? 3 : 0, 1})) { case 0: PBT_CHECK(h.erase(k) == in, "hash set: erasing %s key %lld returned %d", in ? "present" : "absent", (long long)k, !in); m.erase(k); break;
            case 1: if (m.size() >= n && !in) break; PBT_CHECK(h.template insert<false>(k) == !in, "hash set: inserting %s key %lld returned %d", in ? "present" : "absent", (long long)k, in); m.insert(k); live(m.size()); break;
            default: PBT_CHECK((h.find(k) != h.NOT_FOUND) == in, "hash set: find of %s key %lld is wrong", in ? "present" : "absent", (long long)k); } }
    for (K k : pool) PBT_CHECK((h.find(k) != h.NOT_FOUND) == (bool)m.count(k), "hash set: key %lld %s", (long long)k, m.count(k) ? "lost" : "present although never inserted or erased");
    h.resetStates(); for (K k : pool) PBT_CHECK(h.find(k) == h.NOT_FOUND, "hash set: key %lld survives the reset", (long long)k); }
template<class K> static void hashSymbolicRowC(Tape &t, HashAccumulator<K, void, void> &h, size_t nm, size_t fl, uint64_t maxKey) {
    h.resize(nm + fl); auto keys = genKeys<K>(t, fl + nm + 2, maxKey, 4 * (nm + fl + 1)); std::set<K> m;
    size_t next = 0; for (size_t o = 0; o < fl; ++o) { K k = next < keys.size() && t.chance(4, 5) ? keys[next++] : keys[t.draw(keys.size())]; PBT_CHECK(h.template insert<true>(k) == !m.count(k), "hash set: insert<track> of key %lld is wrong", (long long)k); m.insert(k); } live(m.size());
    for (K k : keys) { if (!m.count(k)) g_absent = true; PBT_CHECK((h.find(k) != h.NOT_FOUND) == (bool)m.count(k), "hash set: find of key %lld is wrong", (long long)k); }
    h.resetStatesList(); for (K k : keys) PBT_CHECK(h.find(k) == h.NOT_FOUND, "hash set: key %lld survives resetStatesList", (long long)k); }

// ---- dense accumulators
template<class Acc, class K, class V, bool One> static void msaNumericRow(Tape &t, Acc &a, uint64_t range) {
    size_t n = t.draw(upTo(range, 12, 1500)); auto keys = genKeys<K>(t, n, range - 1, 16); auto pool = keys; auto other = genKeys<K>(t, std::min<uint64_t>(range, 5), range - 1, 16); pool.insert(pool.end(), other.begin(), other.end());
    std::map<K, std::pair<bool, V>> m; for (K k : keys) { a.setAllowed(k); m[k] = {false, V()}; } live(n);
    size_t ops = pool.empty() ? 0 : t.draw(3 * n + 3); for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; auto &st = a.getState(k);
        if (!m.count(k)) { g_absent = true; PBT_CHECK(st == Acc::NOT_ALLOWED, "dense: key %lld outside the mask has state %d", (long long)k, (int)st); continue; }
        PBT_CHECK(st == (m[k].first ? Acc::INITIALIZED : Acc::ALLOWED), "dense: key %lld has state %d", (long long)k, (int)st); if (m[k].first) PBT_CHECK(a.getValue(k) == m[k].second, "dense: value of key %lld changed", (long long)k);
        V x = val<V>(t); if constexpr (One) { a[k].value = x; a[k].state = Acc::INITIALIZED; } else { a.getValue(k) = x; st = Acc::INITIALIZED; } m[k] = {true, x}; }
    for (K k : keys) { auto st = a.getState(k); PBT_CHECK(st == (m[k].first ? Acc::INITIALIZED : Acc::ALLOWED) && (!m[k].first || a.getValue(k) == m[k].second), "dense: key %lld lost its state or value", (long long)k); a.clear(k); }
    PBT_CHECK(a.isInitialized(), "dense: not clean after the row was cleared"); }
template<class Acc, class K> static void msaSymbolicRow(Tape &t, Acc &a, uint64_t range) {
    size_t n = t.draw(upTo(range, 12, 1500)); auto keys = genKeys<K>(t, n, range - 1, 16); auto pool = keys; auto other = genKeys<K>(t, std::min<uint64_t>(range, 5), range - 1, 16); pool.insert(pool.end(), other.begin(), other.end());
    std::set<K> m; for (K k : keys) { a.setAllowed(k); m.insert(k); } live(n); size_t ops = pool.empty() ? 0 : t.draw(3 * n + 3);
    for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = m.count(k); if (!in) g_absent = true; PBT_CHECK(a.erase(k) == in, "dense: erasing %s key %lld returned %d", in ? "present" : "absent", (long long)k, !in); m.erase(k); }
    for (K k : keys) a.clear(k); PBT_CHECK(a.isInitialized(), "dense: not clean after the symbolic row"); }
template<class Acc, class K, class V> static void msaNumericRowC(Tape &t, Acc &a, uint64_t range) {
    size_t nm = t.draw(upTo(range, 8, 1000)); auto mk = genKeys<K>(t, nm, range - 1, 16); auto pool = mk; auto other = genKeys<K>(t, std::min<uint64_t>(range, g_big ? 800 : 10), range - 1, 16); pool.insert(pool.end(), other.begin(), other.end());
    std::set<K> mask(mk.begin(), mk.end()); std::map<K, V> m; std::vector<K> order; for (K k : mk) a.setNotAllowed(k); size_t ops = pool.empty() ? 0 : t.draw(g_big ? 3000 : 30);
    for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; auto &st = a.getState(k); if (mask.count(k)) { g_absent = true; PBT_CHECK(st == Acc::NOT_ALLOWED, "dense~: masked key %lld has state %d", (long long)k, (int)st); continue; }
        if (m.count(k)) { PBT_CHECK(st == Acc::INITIALIZED && a.getValue(k) == m[k], "dense~: key %lld lost its value", (long long)k); V x = val<V>(t); a.getValue(k) = x; m[k] = x; }
        else { PBT_CHECK(st == Acc::ALLOWED, "dense~: fresh key %lld has state %d", (long long)k, (int)st); V x = val<V>(t); a.getValue(k) = x; a.setInitialized(k); m[k] = x; order.push_back(k); } }
    live(m.size()); Outs<K, V> out(m.size()); bool srt = t.draw(2); if (srt) { std::sort(order.begin(), order.end()); a.template gather<true>(out.kp, out.vp); } else a.template gather<false>(out.kp, out.vp);
    std::vector<std::pair<K, V>> want; for (K k : order) want.push_back({k, m[k]}); out.check("dense~ gather", want); a.resetStates(mk.begin(), mk.end()); PBT_CHECK(a.isInitialized(), "dense~: not clean after the row"); }
template<class Acc, class K> static void msaSymbolicRowC(Tape &t, Acc &a, uint64_t range) {
    auto pool = genKeys<K>(t, std::min<uint64_t>(range, g_big ? 800 : 10), range - 1, 16); std::set<K> m; size_t ops = t.draw(g_big ? 3000 : 30);
    for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = a.getState(k) == Acc::INITIALIZED; PBT_CHECK(in == (bool)m.count(k), "dense~: key %lld %s", (long long)k, in ? "set although it was not" : "lost"); if (!in) { a.setInitialized(k); m.insert(k); } } live(m.size());
    for (K k : pool) if (t.chance(1, 2)) { bool in = m.count(k); if (!in) g_absent = true; PBT_CHECK(a.erase(k) == in, "dense~: erasing key %lld returned %d", (long long)k, !in); m.erase(k); }
    a.resetStates(); PBT_CHECK(a.isInitialized(), "dense~: not clean after the symbolic row"); }
// ---- mask-compressed
template<class Acc, class V> static void mcaRow(Tape &t, Acc &a, size_t cap, bool numeric) {
    size_t n = t.draw(cap + 1); std::map<size_t, std::pair<int, V>> m; for (size_t i = 0; i < n; ++i) PBT_CHECK(a.isEmpty(i), "mask-compressed: slot %zu not empty at the start of a row", i); size_t ops = n ? t.draw(3 * n + 1) : 0;
    for (size_t o = 0; o < ops; ++o) { size_t i = t.draw(n); auto &e = a[i]; bool in = m.count(i); if (!in) g_absent = true; PBT_CHECK(a.isEmpty(i) == !in && (!in || e.state == m[i].first), "mask-compressed: slot %zu in the wrong state", i);
        if constexpr (!std::is_void<V>::value) { if (in) PBT_CHECK(e.value == m[i].second, "mask-compressed: slot %zu lost its value", i); }
        switch (t.weighted({6, 1, 1})) { case 1: PBT_CHECK(a.erase(i) == in, "mask-compressed: erase of slot %zu is wrong", i); if (in) m.erase(i); break; case 2: a.clear(i); m.erase(i); break;
            default: e.state = numeric ? Acc::INITIALIZED : Acc::ALLOWED; m[i] = {e.state, V()}; if constexpr (!std::is_void<V>::value) { V x = val<V>(t); e.value = x; m[i].second = x; } } }
    live(m.size()); a.clearAll(n); for (size_t i = 0; i < n; ++i) PBT_CHECK(a.isEmpty(i), "mask-compressed: slot %zu survives clearAll", i); }
struct Nothing {}; template<class Acc> static void mcaRowSym(Tape &t, Acc &a, size_t cap) { size_t n = t.draw(cap + 1); std::set<size_t> m; size_t ops = n ? t.draw(3 * n + 1) : 0;
    for (size_t o = 0; o < ops; ++o) { size_t i = t.draw(n); bool in = m.count(i); if (!in) g_absent = true; PBT_CHECK((a[i].state == Acc::EMPTY) == !in && a.isEmpty(i) == !in, "mask-compressed: slot %zu in the wrong state", i); switch (t.weighted({6, 1, 1})) { case 1: PBT_CHECK(a.erase(i) == in, "mask-compressed: erase is wrong"); m.erase(i); break; case 2: a.clear(i); m.erase(i); break; default: a[i].state = Acc::ALLOWED; m.insert(i); } }
    live(m.size()); a.clearAll(n); for (size_t i = 0; i < n; ++i) PBT_CHECK(a.isEmpty(i), "mask-compressed: slot %zu survives clearAll", i); }
// ---- heap
template<class K> static void heapRow(Tape &t, Heap<K> &h, size_t cap) {
    size_t n = t.draw(cap + 1); std::multiset<std::pair<K, K>> m; std::vector<std::vector<K>> runs(n); K maxK = (K)200; PBT_CHECK(h.isEmpty(), "heap: not empty at the start of a row");
    for (size_t i = 0; i < n; ++i) { size_t len = 1 + t.draw(5); K k = (K)t.draw(20); for (size_t j = 0; j < len; ++j) { runs[i].push_back(k); k += (K)(t.draw(6) + (j % 2)); } (void)maxK; h.append(runs[i][0], (K)i, 0); m.insert({runs[i][0], (K)i}); } live(n); h.make();
    size_t stopAfter = t.chance(1, 3) ? t.draw(g_big ? 2000 : 12) : ~size_t(0); while (!m.empty()) { PBT_CHECK(!h.isEmpty(), "heap: empty although %zu entries are left", m.size()); if (stopAfter-- == 0) { h.clear(); g_absent = true; break; }
        auto &e = h.top(); K k = e.key, r = e.runr; PBT_CHECK(k == m.begin()->first, "heap: top has key %lld, the smallest is %lld", (long long)k, (long long)m.begin()->first); auto it = m.find({k, r}); PBT_CHECK(it != m.end() && runs[r][e.loc] == k, "heap: top entry (%lld, run %lld) was never inserted", (long long)k, (long long)r); m.erase(it);
        if (++e.loc < (K)runs[r].size()) { e.key = runs[r][e.loc]; m.insert({e.key, r}); h.sinkRoot(); } else h.pop(); }
    PBT_CHECK(h.isEmpty(), "heap: %s", "not empty after the row"); }

template<class K, class V> static void family(Tape &t, Ctx &ctx, const char *types) {
    g_live = 0; g_absent = false; g_big = t.chance(1, 40); int fam = t.draw(7); static const char *nm[] = {"hash", "hash-complement", "one-array", "one-array-complement", "two-array", "two-array-complement", "mask-compressed"}; bool heap = fam == 6 && t.chance(1, 2);
    size_t capA = g_big ? t.draw(6000) : t.weighted({4, 1}) ? t.draw(300) : t.draw(16), capB = t.draw(g_big ? 1000 : 20); int users = 1 + t.draw(4); uint64_t maxKey = std::min<uint64_t>((uint64_t)std::numeric_limits<K>::max() - 1, 1ull << 40); if (t.chance(1, 2)) maxKey = std::min<uint64_t>(maxKey, 5000);
    ctx.label(heap ? "heap" : nm[fam]); ctx.label(types); ctx.note(strf("[%s] %s capacities %zu,%zu users %d max key %llu%s", types, heap ? "heap" : nm[fam], capA, capB, users, (unsigned long long)maxKey, g_big ? " (long rows)" : ""));
    size_t extra = 0;   // callers size the buffer for the larger of the two
#define RUN_PAIR(SYM, NUM, SYMCALL, NUMCALL) { SYM s_; NUM n_; (void)s_; (void)n_; }
    auto drive = [&](auto &sym, auto &num, auto symRow, auto numRow) {
        auto [ss, sa] = sym.getMemoryRequirement(); auto [ns, na] = num.getMemoryRequirement(); size_t al = std::lcm(sa, na); Buf b(t, std::max(ss, ns) + extra, al); bool s = t.draw(2); std::string tr;
        for (int u = 0; u < users; ++u, s = !s) { int rows = t.draw(g_big ? 3 : 6);
            if (s) { sym.setBuffer(b.mem, b.size, b.dirty); for (int r = 0; r < rows; ++r) symRow(); b.dirty = sym.releaseBuffer(); b.check("size pass"); }
            else { num.setBuffer(b.mem, b.size, b.dirty); for (int r = 0; r < rows; ++r) numRow(); b.dirty = num.releaseBuffer(); b.check("value pass"); } } };
    if (fam < 2) { HashAccumulator<K, void, void> s(capA + capB); HashAccumulator<K, V, bool> n(capA + capB);
        if (fam == 0) drive(s, n, [&] { hashSymbolicRow<K>(t, s, t.draw(upTo(capA + capB, 24, 5000)), maxKey); }, [&] { hashNumericRow<K, V>(t, n, t.draw(upTo(capA + capB, 24, 5000)), maxKey); });
        else drive(s, n, [&] { hashSymbolicRowC<K>(t, s, t.draw(capB + 1), t.draw(upTo(capA, 40, 4000)), maxKey); }, [&] { hashNumericRowC<K, V>(t, n, t.draw(capB + 1), t.draw(upTo(capA, 40, 4000)), maxKey); }); }
    else if (fam < 6) { uint64_t range = 1 + t.draw(g_big ? 200000 : t.chance(1, 3) ? 2000 : 40);
        if (fam == 2) { MaskedSparseAccumulator1A<K, void, false> s(range); MaskedSparseAccumulator1A<K, V, false> n(range); drive(s, n, [&] { msaSymbolicRow<decltype(s), K>(t, s, range); }, [&] { msaNumericRow<decltype(n), K, V, true>(t, n, range); }); }
        else if (fam == 3) { MaskedSparseAccumulator1A<K, void, true> s(range); MaskedSparseAccumulator1A<K, V, true> n(range); drive(s, n, [&] { msaSymbolicRowC<decltype(s), K>(t, s, range); }, [&] { msaNumericRowC<decltype(n), K, V>(t, n, range); }); }
        else if (fam == 4) { MaskedSparseAccumulator2A<K, void, false> s(range); MaskedSparseAccumulator2A<K, V, false> n(range); drive(s, n, [&] { msaSymbolicRow<decltype(s), K>(t, s, range); }, [&] { msaNumericRow<decltype(n), K, V, false>(t, n, range); }); }
        else { MaskedSparseAccumulator2A<K, void, true> s(range); MaskedSparseAccumulator2A<K, V, true> n(range); drive(s, n, [&] { msaSymbolicRowC<decltype(s), K>(t, s, range); }, [&] { msaNumericRowC<decltype(n), K, V>(t, n, range); }); } }
    else if (!heap) { size_t cap = t.draw(g_big ? 4000 : 24); MaskCompressedAccumulator<K, void> s(cap); MaskCompressedAccumulator<K, V> n(cap); drive(s, n, [&] { mcaRowSym(t, s, cap); }, [&] { mcaRow<decltype(n), V>(t, n, cap, true); }); }
    else { size_t cap = t.draw(g_big ? 2000 : 40); Heap<K> h(cap); drive(h, h, [&] { heapRow<K>(t, h, cap); }, [&] { heapRow<K>(t, h, cap); }); }
    ctx.nontrivial = g_live >= 3 && g_absent; }
PBT_PROP(accumulators_i32_u64, 2) { family<int32_t, uint64_t>(t, ctx, "int32/uint64"); }
PBT_PROP(accumulators_u32_float, 2) { family<uint32_t, float>(t, ctx, "uint32/float"); }
PBT_PROP(accumulators_i64_double, 2) { family<int64_t, double>(t, ctx, "int64/double"); }

PBT_PROP(legacy_hash, 2) {
    g_live = 0; g_absent = false; typedef int32_t K; typedef uint64_t V; g_big = t.chance(1, 60); size_t cap = 1 + t.draw(g_big ? 4000 : 60); auto keys = genKeys<K>(t, cap, 1000000, 64); auto other = genKeys<K>(t, 5, 1000000, 64); auto pool = keys; pool.insert(pool.end(), other.begin(), other.end());
    int kind = t.draw(3); ctx.label(strf("legacy map %d", kind)); ctx.note(strf("legacy map kind %d capacity %zu", kind, cap)); size_t ops = t.draw(4 * cap + 4); int rows = 1 + t.draw(3);
    if (kind == 0) { map_lp<K, V, bool> h((int32_t)cap + 1); for (int r = 0; r < rows; ++r) { std::map<K, std::pair<V, bool>> m; for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = m.count(k);
                if (!in && m.size() < cap && t.draw(2)) { V x = t.draw(99); bool f = t.draw(2); PBT_CHECK(h.insert(k, x, f), "legacy map: new key reported present"); m[k] = {x, f}; }
                else { auto hv = h.find(k); PBT_CHECK((hv != -1) == in, "legacy map: find of %s key %d is wrong", in ? "present" : "absent", k); if (!in) { g_absent = true; continue; } PBT_CHECK(h.get1(hv) == m[k].first && (bool)h.get2(hv) == m[k].second, "legacy map: wrong value for key %d", k); if (t.draw(2)) { h.get1(hv) = m[k].first + 1; h.get2(hv) = true; m[k] = {m[k].first + 1, true}; } else { PBT_CHECK(!h.insert(k, 1, true), "legacy map: present key inserted"); } } }
            live(m.size()); size_t n = 0; for (auto &e : m) n += e.second.second; std::vector<K> ik(n + 1, -5); std::vector<V> iv(n + 1, 5); h.gather(ik.data(), iv.data()); std::map<K, V> got; for (size_t i = 0; i < n; ++i) got[ik[i]] = iv[i]; PBT_CHECK(ik[n] == -5 && iv[n] == 5, "legacy map: gather wrote too much");
            std::map<K, V> want; for (auto &e : m) if (e.second.second) want[e.first] = e.second.first; PBT_CHECK(got == want, "legacy map: gather differs"); for (K k : pool) PBT_CHECK(h.find(k) == -1, "legacy map: key %d survives gather", k); } }
    else if (kind == 1) { map_lp<K, V> h((int32_t)cap + 1); for (int r = 0; r < rows; ++r) { std::map<K, V> m; for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = m.count(k);
                if (m.size() < cap && t.draw(2)) { V x = t.draw(99); PBT_CHECK(h.insert(k, x) == !in, "legacy map: insert of key %d is wrong", k); if (!in) m[k] = x; }
                else { K loc; auto hv = t.draw(2) ? h.find(k) : h.find(k, &loc); PBT_CHECK((hv != -1) == in, "legacy map: find of key %d is wrong", k); if (!in) g_absent = true; else PBT_CHECK(h[hv] == m[k], "legacy map: wrong value for key %d", k); } }
            live(m.size()); h.reset(); for (K k : pool) PBT_CHECK(h.find(k) == -1, "legacy map: key %d survives the reset", k); } }
    else { map_lp<K> h((int32_t)cap + 1); std::set<K> m; for (size_t o = 0; o < ops; ++o) { K k = pool[t.draw(pool.size())]; bool in = m.count(k); if (m.size() < cap && t.draw(2)) { PBT_CHECK(h.insert(k) == !in, "legacy set: insert is wrong"); m.insert(k); } else { auto hv = h.find(k); PBT_CHECK((hv != -1) == in, "legacy set: find of key %d is wrong", k); if (!in) g_absent = true; else PBT_CHECK(h[hv] == k, "legacy set: wrong slot"); } } live(m.size()); }
    ctx.nontrivial = g_live >= 3 && g_absent; }
PBT_PROP(legacy_spa, 1) {
    typedef int32_t K; typedef uint64_t V; g_live = 0; g_absent = false; g_big = t.chance(1, 60); size_t range = 1 + t.draw(g_big ? 100000 : 60); SPA<K, V> a(range); SPAStructure<K> s(range); int rows = 1 + t.draw(4); ctx.label("legacy dense"); ctx.note(strf("legacy dense accumulator of %zu", range));
    auto sub = [](V x, V y) { return x * 31 + y; };
    for (int r = 0; r < rows; ++r) { size_t n = t.draw(upTo(range, 12, 2000)); auto keys = genKeys<K>(t, n, range - 1, 16); std::set<K> mask(keys.begin(), keys.end()); a.Initialize(keys.begin(), keys.end()); s.Initialize(keys.begin(), keys.end()); std::map<K, V> m; size_t ops = t.draw(g_big ? 4000 : 30);
        for (size_t o = 0; o < ops; ++o) { K k = t.draw(3) && n ? keys[t.draw(n)] : (K)t.draw(range); V x = t.draw(50); a.Insert(k, x, sub); s.Insert(k); if (!mask.count(k)) { g_absent = true; continue; } if (m.count(k)) m[k] = sub(x, m[k]); else m[k] = x; PBT_CHECK(a.Size() == m.size() && s.Size() == m.size(), "legacy dense: size is %zu / %zu, expected %zu", a.Size(), s.Size(), m.size()); }
        live(m.size()); std::vector<K> ik(m.size() + 1, -5); std::vector<V> iv(m.size() + 1, 5); a.OutputReset(ik.begin(), iv.begin()); std::map<K, V> got; for (size_t i = 0; i < m.size(); ++i) got[ik[i]] = iv[i]; PBT_CHECK(got == m && ik[m.size()] == -5, "legacy dense: output differs from what was inserted"); s.Reset(); PBT_CHECK(a.Size() == 0 && s.Size() == 0, "legacy dense: not empty after the row"); }
    ctx.nontrivial = g_live >= 3 && g_absent; }
