// C13: prefix sums against the definition.
#include <numeric>
#include <cstring>
#include "utility.h"
#include "spgemm-blocks/scan.h"
#include "pbt.h"
using namespace pbt;
namespace pbt { const char *g_rule =
    "one case = one array (length 1 to about 400 000, rarely to 5 million, biased to 1-40, to multiples of the team size +-2, to powers of two +-2 and to the sequential/parallel switches), one element type (32/64-bit signed and unsigned, double), one team size 1-64 (1 case in 60: 65-256, mostly with lengths just above 2^17) and one routine "
    "(exclusiveScan, inclusiveScan, both also called from inside a running team; scan, seq_scan, CumulativeSum). Input and output are exactly as long as the routine may touch, between guard elements (and red zones under AddressSanitizer); "
    "the result is compared element by element with the definition. Non-trivial: at least two non-zero elements and, for the parallel routines, more than one thread; distinct by the list of generator draws"; }

template<class T> struct Arr { size_t n; T *base, *p; T g;                  // n elements between guards
    Arr(size_t n) : n(n) { base = (T *)malloc((n + 2) * sizeof(T)); p = base + 1; g = (T)113; for (size_t i = 0; i < n + 2; ++i) base[i] = g; }
    ~Arr() { free(base); }
    void guards(const char *w) { PBT_CHECK(base[0] == g && base[n + 1] == g, "%s wrote outside its output of %zu elements", w, n); } };

static size_t genLen(Tape &t, int nt) {
    switch (t.weighted({10, 6, 4, 3, 2})) { case 0: return 1 + t.draw(40); case 1: { int64_t v = (int64_t)nt * t.range(1, 6) + t.range(-2, 2); return v < 1 ? 1 : v; }
        case 2: { int64_t v = (1ll << t.range(1, 14)) + t.range(-2, 2); return v < 1 ? 1 : v; }
        case 3: { int64_t v = (1ll << 17) + t.range(-2, 2); if (t.chance(1, 2)) v += t.range(0, nt + 1) + (int64_t)nt * t.draw(9); return v; }
        default: if (t.chance(1, 25)) return (1u << 20) - 2 + t.draw(t.chance(1, 3) ? 4000000 : 300000); return t.chance(1, 3) ? 131072 + t.draw(270000) : (size_t)std::max<int64_t>(1, t.pick(dictionary()) + t.range(-1, 1)); } }

template<class T> static void run(Tape &t, Ctx &ctx, const char *tn) {
    int nt = t.chance(1, 12) ? t.range(17, 64) : 1 + t.draw(16), kind = t.draw(std::is_floating_point<T>::value ? 4 : 7); bool crowd = t.chance(1, 60);
    if (crowd) nt = t.range(65, 256);                                        // a machine with many cores: pieces are short even where the parallel branch is taken
    size_t n = crowd && t.chance(2, 3) ? 131072 + t.draw(t.chance(1, 2) ? 3000 : 60) : genLen(t, nt);
    Arr<T> in(n), out(n); std::vector<T> src(n); int style = t.weighted({4, 2, 2, 1}); RngSrc rs(t.draw(0)); size_t nz = 0; bool sg = std::is_signed<T>::value;
    for (size_t i = 0; i < n; ++i) { uint64_t r = n <= 64 ? t.draw(100) : rs.draw(100); int64_t v = style == 0 ? r : style == 1 ? (r < 85 ? 0 : r) : style == 2 ? (sg ? (int64_t)r - 50 : r) : (r == 7); src[i] = (T)v; nz += v != 0; }
    memcpy(in.p, src.data(), n * sizeof(T)); omp_set_dynamic(0); omp_set_num_threads(nt);
    static const char *names[] = {"exclusiveScan", "inclusiveScan", "exclusiveScan (in team)", "inclusiveScan (in team)", "scan", "seq_scan", "CumulativeSum"};
    const char *w = names[kind]; ctx.label(w); ctx.label(n < (size_t)nt ? "n < threads" : n < (1u << 17) ? "n < 2^17" : "n >= 2^17");
    ctx.note(strf("%s<%s> over %zu elements, %d threads, values style %d", w, tn, n, nt, style)); if (ctx.verbose && n <= 64) { std::string s; for (T v : src) s += std::to_string((long long)v) + " "; ctx.note("  in: " + s); }
    bool incl = kind == 1 || kind == 3; ctx.nontrivial = nz > 1 && (kind >= 5 || nt > 1);
    switch (kind) {
        case 0: exclusiveScan<T>(in.p, n, out.p, nt); break;
        case 1: inclusiveScan<T>(in.p, n, out.p, nt); break;
        case 2: case 3: { Arr<T> part(nt); int got = 0; 
            #pragma omp parallel num_threads(nt)
            {   if (omp_get_thread_num() == 0) got = omp_get_num_threads();
                if (kind == 2) exclusiveScan<T>(in.p, n, out.p, nt, part.p); else inclusiveScan<T>(in.p, n, out.p, nt, part.p); }
            if (got != nt) throw Discard{"runtime gave fewer threads"}; part.guards(w); break; }
        default: if constexpr (!std::is_floating_point<T>::value) { if (kind < 6) {   // n outputs, n-1 inputs
            T *ex = (T *)malloc(std::max<size_t>(1, (n - 1) * sizeof(T))); memcpy(ex, src.data(), (n - 1) * sizeof(T));
            if (kind == 4) scan<T>(ex, out.p, (T)n); else seq_scan<T>(ex, out.p, (T)n);
            PBT_CHECK(!memcmp(ex, src.data(), (n - 1) * sizeof(T)), "%s changed its input", w); free(ex); break; }
        T tot = CumulativeSum<T>(in.p, (T)n), s = 0; for (T v : src) s += v; PBT_CHECK(tot == s, "CumulativeSum returned %lld, the sum is %lld", (long long)tot, (long long)s); memcpy(out.p, in.p, n * sizeof(T)); memcpy(in.p, src.data(), n * sizeof(T)); } break; }
    T acc = 0; for (size_t i = 0; i < n; ++i) { if (incl) acc += src[i]; PBT_CHECK(out.p[i] == acc, "%s<%s> of %zu elements with %d threads: element %zu is %lld, the prefix sum is %lld", w, tn, n, nt, i, (long long)out.p[i], (long long)acc); if (!incl) acc += src[i]; }
    out.guards(w); in.guards(w); PBT_CHECK(!memcmp(in.p, src.data(), n * sizeof(T)), "%s changed its input", w); }

PBT_PROP(scan_int32, 2) { run<int32_t>(t, ctx, "int32"); }
PBT_PROP(scan_uint32, 1) { run<uint32_t>(t, ctx, "uint32"); }
PBT_PROP(scan_int64, 1) { run<int64_t>(t, ctx, "int64"); }
PBT_PROP(scan_uint64, 1) { run<uint64_t>(t, ctx, "uint64"); }
PBT_PROP(scan_double, 1) { run<double>(t, ctx, "double"); }
