// Masked products against a reference computed from the definition, over generated operands.
// MULT_GROUPS selects the kernels of the property.
#include "kern.h"
using namespace gen; using namespace kern;
namespace pbt { const char *g_rule =
    "one case = generated A, B, M (shapes tiny/small/medium/wide/tall/long rows/power-of-two and source-constant dimensions, rarely more than 2^16 rows or entries per row; rows empty, sparse, banded, strided, full; masks independent of, inside, around, "
    "equal to or disjoint from the product; A=B=M sharing; sorted and unsorted rows; explicit zeros), a semiring, a thread count and an operand aliasing; every applicable algorithm of the group runs on it. "
    "Non-trivial: some product passes the mask, some product is rejected by it, and some output entry sums at least two products; distinct by the list of generator draws"; }

namespace kern { int g_nblockers = 1, g_blockwidth = 1; }
static std::vector<std::vector<const Kernel *>> byType(std::initializer_list<int> groups, std::vector<std::string> &names) {
    std::map<std::string, std::vector<const Kernel *>> m;
    for (auto &k : all()) for (int g : groups) if (k.group == g) m[k.types].push_back(&k);
    std::vector<std::vector<const Kernel *>> r; for (auto &e : m) { names.push_back(e.first); r.push_back(e.second); } return r; }

static void runCase(pbt::Tape &t, pbt::Ctx &ctx, std::initializer_list<int> groups, int mode, bool structureOnly) {
    static std::map<std::vector<int>, std::pair<std::vector<std::string>, std::vector<std::vector<const Kernel *>>>> cache;
    auto &ce = cache[std::vector<int>(groups)]; if (ce.second.empty()) ce.second = byType(groups, ce.first); auto &tn = ce.first; auto &ks = ce.second;
    int ty = t.draw(ks.size());
    ProblemOpts o; bool wantSorted = t.chance(1, 2); if (wantSorted) o.unsortedA = o.unsortedB = o.unsortedM = false;
    bool legacy = *groups.begin() >= LEGACY, outer = *groups.begin() == OUTER; if (outer) { o.nsemi = 1; g_nblockers = (int)genDim(t, 80); g_blockwidth = (int)genDim(t, 80); }
    Problem p = genProblem(t, o);
    Args a; a.p = &p; a.shareAB = a.shareAM = t.chance(1, 2); a.shareBM = p.sameAB && p.sameAM && t.chance(1, 4);
    a.alias = (Alias)t.weighted({6, 2, 1, 1, 1}); a.useDefaultThreads = t.chance(1, 8); if (legacy) a.alias = FRESH; a.perturb = (MULT_PROP == 9 || t.chance(1, 2)) ? 1 + (int)t.draw(255) : 0;
    // far more columns than anything is stored per column: only the algorithms that do not keep an array of columns
    bool wide = *groups.begin() != INNER && *groups.begin() != POLY && !outer && !p.sameAB && !p.sameAM && a.alias != ALIAS_A && p.B.c <= 20000 && p.M.nnz() <= 20000 && t.chance(1, 6);
    if (wide) { int64_t top = !strncmp(ks[ty][0]->types, "int32", 5) ? 0x7fffffffll : !strncmp(ks[ty][0]->types, "uint32", 6) ? 0xffffffffll : 1ll << (31 + t.draw(32)); if (t.chance(1, 3)) top = std::max<int64_t>(p.B.c, top >> t.draw(9)); int64_t n = p.B.c, step = top / (n + 1), at = 0; int how = t.draw(4); RngSrc rs(t.draw(0)); if (how == 2 && n > 1500) how = 0; if (how == 2) { step = 1; while (step * 2 <= top / (n + 1)) step *= 2; }
        for (int64_t j = 0; j < n; ++j) { a.wide.push_back(how == 1 ? top - n + j : how == 3 ? (j < n / 2 ? j : top - n + j) : at + (how == 0 && step > 1 ? (int64_t)rs.draw(step) : 0)); at += step; } a.wide.push_back(top); ctx.label("columns-far-apart"); }
    Facts f = facts(p, mode);
    ctx.note(strf("[%s alias=%d share=%d%d] ", tn[ty].c_str(), (int)a.alias, (int)a.shareAB, (int)a.shareBM) + (wide ? strf("columns up to %ld, ", (long)a.wide.back()) : "") + describe(p));
    ctx.nontrivial = f.kept > 0 && (mode == 2 || f.maskedAway > 0) && f.collide > 0;
    ctx.label(strf("shape-%d", p.shape)); ctx.label(std::string("types-") + tn[ty]); ctx.label(std::string("semiring-") + semiName(p.semi));
    ctx.label(f.kept == 0 ? "empty-result" : "non-empty-result"); if (f.emptyMaskRows) ctx.label("has-empty-mask-row"); if (p.threads > (unsigned)p.A.r) ctx.label("more-threads-than-rows");
    if (!f.sortedB || !f.sortedM || !f.sortedA) ctx.label("unsorted-operand"); if (a.alias >= ALIAS_A) ctx.label("output-is-an-operand"); if (p.sameAB) ctx.label("A-equals-B");
    bool sorted = f.sortedA && f.sortedB && f.sortedM; int ran = 0;
    for (const Kernel *k : ks[ty]) {
        if (k->needsSorted && !sorted) continue;
        if (!k->aliasOk && a.alias >= ALIAS_A) continue;
        if (wide && !(strstr(k->name, "Hash") || strstr(k->name, "hash_mask") || strstr(k->name, "Heap") || strstr(k->name, "MCA")) ) continue;
        if (wide && strstr(k->name, "columns")) continue;
        a.keep = structureOnly || legacy; a.checkValues = !structureOnly;
        if (outer && !strncmp(k->name, "OuterSpGEMM2", 12) && (p.A.r != p.A.c || p.A.r >= 65536 || p.B.c >= 65536)) continue;
        if (outer && (p.A.r > g_nblockers * 4096ll || p.B.c > 1 << 20)) continue;      // rows of a block are numbered with 12 bits, columns with 20
        Out r = k->run(a); ++ran;
        if (!r.err.empty()) pbt::fail("%s (%s): %s", k->name, k->types, r.err.c_str());
#if MULT_PROP == 31
        // the baselines that multiply first and apply the mask afterwards may form every product, but no product twice
        bool filtersLater = strstr(k->name, "Intersect") || strstr(k->name, "MaskedSPA"); int64_t mayMul = filtersLater ? f.products : f.kept;
        PBT_CHECK(r.muls <= mayMul, "%s (%s): the multiply operator was called %ld times, %ld products %s", k->name, k->types, (long)r.muls, (long)mayMul, filtersLater ? "exist" : "are admitted by the mask");
        PBT_CHECK(r.adds <= (filtersLater ? f.products : f.collide), "%s (%s): the add operator was called %ld times; %ld products make up %ld entries", k->name, k->types, (long)r.adds, (long)f.kept, (long)f.outNnz);
#endif
        if (a.keep) for (int64_t i = 0; i < p.A.r; ++i)
                if (k->promisesSorted || (k->inMaskOrder && f.sortedM)) for (int64_t x = r.ptr[i] + 1; x < r.ptr[i + 1]; ++x) PBT_CHECK(r.col[x - 1] < r.col[x], "%s (%s): row %ld: columns %ld,%ld out of order", k->name, k->types, (long)i, (long)r.col[x - 1], (long)r.col[x]);
        if (structureOnly) {
            int64_t outn = (int64_t)r.col.size();
            PBT_CHECK(outn == f.outNnz, "%s (%s): %ld entries stored, the product has %ld", k->name, k->types, (long)outn, (long)f.outNnz);
            std::vector<int64_t> posn(p.B.c, -1), owner(p.B.c, -1);
            for (int64_t i = 0; i < p.A.r; ++i) {
                if (k->mode == 0) { for (int64_t x = p.M.ptr[i]; x < p.M.ptr[i + 1]; ++x) { owner[p.M.col[x]] = i; posn[p.M.col[x]] = x; }
                    for (int64_t x = r.ptr[i]; x < r.ptr[i + 1]; ++x) PBT_CHECK(owner[r.col[x]] == i, "%s (%s): entry (%ld,%ld) outside the mask", k->name, k->types, (long)i, (long)r.col[x]); }
                else if (k->mode == 1) { for (int64_t x = p.M.ptr[i]; x < p.M.ptr[i + 1]; ++x) owner[p.M.col[x]] = i;
                    for (int64_t x = r.ptr[i]; x < r.ptr[i + 1]; ++x) PBT_CHECK(owner[r.col[x]] != i, "%s (%s): entry (%ld,%ld) inside the complemented mask", k->name, k->types, (long)i, (long)r.col[x]); }
            } }
    }
    ctx.label(strf("algorithms-run-%d", ran)); if (!ran) throw pbt::Discard{"no applicable algorithm"};
}
// Operands whose products are more than a 32-bit index can count, although each matrix is small: the split of the work over the threads counts them.
// Only the algorithms that skip what the mask rejects finish such a product quickly.
static void runHeavy(pbt::Tape &t, pbt::Ctx &ctx, std::initializer_list<int> groups) {
    std::vector<std::string> tn; auto ks = byType(groups, tn); int ty = t.draw(ks.size()); bool pull = *groups.begin() == INNER; Problem p; p.semi = 0; p.threads = 1 + t.draw(16); p.shape = 20; HMat want; int64_t products = 0;
    auto row = [](HMat &m) { m.ptr.push_back(m.nnz()); }; auto put = [](HMat &m, int64_t j, int64_t v) { m.col.push_back(j); m.val.push_back(v); };
    if (pull || (*groups.begin() == POLY && t.chance(1, 2))) {      // rows of A and of the mask as long as the matrix is wide; B nearly empty
        int64_t n = 30000 + t.draw(40000), r = 1 + t.draw(4); RngSrc s(t.draw(0)); int64_t every = 1 + t.draw(3), band = 1 + t.draw(4); p.A.r = p.M.r = want.r = r; p.A.c = p.B.r = p.B.c = p.M.c = want.c = n;
        HMat bt; bt.r = bt.c = n; for (int64_t j = 0; j < n; ++j) { if (s.draw(50)) put(bt, pull ? s.draw(band) : s.draw(n), 1 + (int64_t)s.draw(3)); row(bt); } p.B = transpose(bt);
        for (int64_t i = 0; i < r; ++i) { std::vector<int64_t> a(n, 0); for (int64_t j = 0; j < n; ++j) if (s.draw(20) >= (uint64_t)(j >= band)) { a[j] = 1 + (int64_t)s.draw(3); put(p.A, j, a[j]); } row(p.A); int64_t la = p.A.ptr[i + 1] - p.A.ptr[i], lm = 0;
            for (int64_t j = 0; j < n; ++j) if (every == 1 || s.draw(every + 5)) { put(p.M, j, 1); ++lm; if (bt.ptr[j] < bt.ptr[j + 1] && a[bt.col[bt.ptr[j]]]) put(want, j, a[bt.col[bt.ptr[j]]] * bt.val[bt.ptr[j]]); } row(p.M); row(want); products += la * lm; } }
    else { int64_t k = 2 + t.draw(8), w = (300000 + t.draw(1200000)) / k, r = std::max<int64_t>(1, (int64_t)((2000 + t.draw(8000)) * 1000000ull / (uint64_t)(k * w))); int dens = 1 + t.draw(12); RngSrc s(t.draw(0)); p.A.r = p.M.r = want.r = r; p.A.c = p.B.r = k; p.B.c = p.M.c = want.c = w;
        std::vector<std::map<int64_t, int64_t>> low(k); for (int64_t i = 0; i < k; ++i) { for (int64_t j = 0; j < w; ++j) if (j >= 40 || s.draw(3)) { int64_t v = 1 + (j & 1); put(p.B, j, v); if (j < 40) low[i][j] = v; } row(p.B); }
        for (int64_t i = 0; i < r; ++i) { std::map<int64_t, int64_t> sum; bool some = s.draw(dens) || dens == 1; for (int64_t j = 0; j < k; ++j) if (some || s.draw(2)) { int64_t v = 1 + (int64_t)s.draw(3); put(p.A, j, v); for (auto &e : low[j]) sum[e.first] += v * e.second; } row(p.A); products += (p.A.ptr[i + 1] - p.A.ptr[i]) * w;
            int64_t j = s.draw(12); if (!s.draw(60)) j = 99; for (; j < 40; j += 1 + s.draw(25)) { put(p.M, j, 1); auto e = sum.find(j); if (e != sum.end()) put(want, j, e->second); } row(p.M); row(want); } }
    Args a; a.p = &p; a.expect = &want; a.alias = (Alias)t.weighted({3, 1}); if (*groups.begin() == LEGACY) a.alias = FRESH;
    ctx.note(strf("[%s] %u threads, about %ld products: A %ldx%ld with %ld entries, B with %ld columns and %ld entries, mask of %ld entries", tn[ty].c_str(), p.threads, (long)products, (long)p.A.r, (long)p.A.c, (long)p.A.nnz(), (long)p.B.c, (long)p.B.nnz(), (long)p.M.nnz()));
    ctx.nontrivial = products > INT32_MAX && want.nnz() > 0 && p.threads > 1; ctx.label("heavy"); if (products > UINT32_MAX) ctx.label("products-exceed-32-bits");
    for (const Kernel *k : ks[ty]) { if (!(pull || strstr(k->name, "Heap") || strstr(k->name, "MCA") || strstr(k->name, "hybrid"))) continue;
        Out r = k->run(a); if (!r.err.empty()) pbt::fail("%s (%s): %s", k->name, k->types, r.err.c_str()); } }
#if MULT_PROP == 10
PBT_PROP(heavy_baseline, 1) { runHeavy(t, ctx, {LEGACY}); }
PBT_PROP(baseline_masked, 300) { runCase(t, ctx, {LEGACY}, 0, false); }
#elif MULT_PROP == 11
PBT_PROP(unmasked, 3) { runCase(t, ctx, {UNMASKED}, 2, false); }
PBT_PROP(outer_product, 2) { runCase(t, ctx, {OUTER}, 2, false); }
#elif MULT_PROP == 1
PBT_PROP(heavy_one_phase, 1) { runHeavy(t, ctx, {G1P}); }
PBT_PROP(one_phase, 300) { runCase(t, ctx, {G1P}, 0, false); }
#elif MULT_PROP == 2
PBT_PROP(heavy_two_phase, 1) { runHeavy(t, ctx, {G2P}); }
PBT_PROP(two_phase, 300) { runCase(t, ctx, {G2P}, 0, false); }
#elif MULT_PROP == 3
PBT_PROP(complemented, 1) { runCase(t, ctx, {C1P, C2P}, 1, false); }
#elif MULT_PROP == 4
PBT_PROP(heavy_pull, 1) { runHeavy(t, ctx, {INNER}); }
PBT_PROP(pull, 300) { runCase(t, ctx, {INNER}, 0, false); }
#elif MULT_PROP == 5
PBT_PROP(heavy_hybrid, 1) { runHeavy(t, ctx, {POLY}); }
PBT_PROP(hybrid, 300) { runCase(t, ctx, {POLY}, 0, false); }
#elif MULT_PROP == 6
PBT_PROP(wellformed_masked_1p, 2) { runCase(t, ctx, {G1P}, 0, true); }
PBT_PROP(wellformed_masked_2p, 2) { runCase(t, ctx, {G2P}, 0, true); }
PBT_PROP(wellformed_pull_hybrid, 1) { runCase(t, ctx, {INNER, POLY}, 0, true); }
PBT_PROP(wellformed_complemented, 2) { runCase(t, ctx, {C1P, C2P}, 1, true); }
#elif MULT_PROP == 31
PBT_PROP(work_1p, 3) { runCase(t, ctx, {G1P}, 0, false); }
PBT_PROP(work_2p, 3) { runCase(t, ctx, {G2P}, 0, false); }
PBT_PROP(work_pull_hybrid, 2) { runCase(t, ctx, {INNER, POLY}, 0, false); }
PBT_PROP(work_complemented, 3) { runCase(t, ctx, {C1P, C2P}, 1, false); }
PBT_PROP(work_baseline, 1) { runCase(t, ctx, {LEGACY}, 0, false); }
PBT_PROP(work_unmasked, 1) { runCase(t, ctx, {UNMASKED}, 2, false); }
#elif MULT_PROP == 9
// run under address/undefined-behaviour sanitizers, and with random fill of fresh heap memory
PBT_PROP(memory_heavy_1p, 1) { runHeavy(t, ctx, {G1P}); }
PBT_PROP(memory_heavy_hybrid, 1) { runHeavy(t, ctx, {POLY}); }
PBT_PROP(memory_heavy_pull, 1) { runHeavy(t, ctx, {INNER}); }
PBT_PROP(memory_masked_1p, 300) { runCase(t, ctx, {G1P}, 0, false); }
PBT_PROP(memory_masked_2p, 300) { runCase(t, ctx, {G2P}, 0, false); }
PBT_PROP(memory_pull_hybrid, 200) { runCase(t, ctx, {INNER, POLY}, 0, false); }
PBT_PROP(memory_complemented, 300) { runCase(t, ctx, {C1P, C2P}, 1, false); }
#endif
