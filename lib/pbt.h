// Choice-tape property-based testing: every random decision of a generator is a draw
// from a Tape. A failing case is the list of its draws; shrinking edits that list.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <type_traits>

namespace pbt {

inline uint64_t mix64(uint64_t x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    uint64_t below(uint64_t n) { return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : next(); }
};

// Abstract source of choices.
struct Src {
    virtual uint64_t draw(uint64_t n) = 0;      // in [0,n); n==0: 64 bits. 0 is the simplest choice
    virtual ~Src() {}
    int64_t range(int64_t lo, int64_t hi) {     // inclusive; lo simplest
        return hi <= lo ? lo : lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }   // 0 -> false
    template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    // weighted choice, index 0 simplest
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int64_t d = (int64_t)draw(tot); int i = 0;
        for (int x : w) { if (d < x) return i; d -= x; ++i; }
        return 0; }
};

struct RngSrc : Src {       // bulk generation for big inputs (seed is drawn from a tape)
    Rng r; explicit RngSrc(uint64_t s) : r(s) {}
    uint64_t draw(uint64_t n) override { return r.below(n); }
};

// Lives in memory shared with the supervising process, so that the draws survive a crash.
struct TapeBuf { static const size_t CAP = 1u << 18; volatile uint64_t len; uint64_t v[CAP]; };

struct Tape : Src {
    TapeBuf *rec; const std::vector<uint64_t> *replay; size_t pos = 0; Rng rng;
    Tape(TapeBuf *b, uint64_t seed) : rec(b), replay(nullptr), rng(seed) { rec->len = 0; }
    Tape(TapeBuf *b, const std::vector<uint64_t> *r) : rec(b), replay(r), rng(0) { rec->len = 0; }
    uint64_t draw(uint64_t n) override {
        uint64_t x;
        if (replay) { x = pos < replay->size() ? (*replay)[pos] : 0; ++pos; if (n) x %= n; }
        else x = rng.below(n);
        if (rec->len < TapeBuf::CAP) { rec->v[rec->len] = x; rec->len = rec->len + 1; }
        return x;
    }
};

struct Failure { std::string msg; };
struct Discard { const char *why; };

struct Ctx {
    bool verbose = false;               // replay: print the case
    bool nontrivial = false;
    std::string desc;                   // description of the case (kept for samples)
    std::vector<std::string> labels;
    int tier = 0;                       // 0 quick, 1 thorough
    void label(const std::string &l) { labels.push_back(l); }
    void note(const std::string &s) { desc += s; if (verbose) { fputs(s.c_str(), stderr); fputc('\n', stderr); } }
};

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

typedef void (*PropFn)(Tape &, Ctx &);
struct Reg { Reg(const char *name, PropFn f, int weight = 1); };
#define PBT_PROP(name, weight) static void name(::pbt::Tape &t, ::pbt::Ctx &ctx); \
    static ::pbt::Reg reg_##name(#name, name, weight); \
    static void name(::pbt::Tape &t, ::pbt::Ctx &ctx)

extern const char *g_rule;      // set by the harness: how cases are made / non-triviality rule
extern double g_case_timeout;   // seconds
const std::vector<int64_t> &dictionary();   // integer constants found in the sources under test
extern PropFn g_before, g_after;   // around every case, or null
int main_impl(int argc, char **argv);
} // namespace pbt
