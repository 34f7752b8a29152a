// Uniform, type-erased access to the masked products of the repository.
#pragma once
#include "gen.h"
namespace kern {
enum Group { G1P = 0, G2P = 1, C1P = 2, C2P = 3, INNER = 4, POLY = 5, LEGACY = 6, UNMASKED = 7, OUTER = 8 };
enum Alias { FRESH = 0, REUSED = 1, ALIAS_A = 2, ALIAS_B = 3, ALIAS_M = 4 };
struct Args {
    const gen::Problem *p; Alias alias = FRESH; bool shareAB = false, shareAM = false, shareBM = false;
    bool useDefaultThreads = false;     // pass 0 and set the runtime's default to p->threads
    std::vector<int64_t> wide;          // not empty: column j of B, the mask and the result is called wide[j] (increasing; the last element is the number of columns)
    int perturb = 0;                    // fill byte of fresh heap memory (0: leave alone)
    bool checkValues = true, checkOperands = true;
    const gen::HMat *expect = nullptr;  // the result, where computing it from the definition would take too long
    bool keep = false;                  // keep the raw result (as uint64 bit patterns) for comparisons
};
struct Out { std::string err; int64_t nnz = 0, muls = 0, adds = 0; std::vector<int64_t> ptr, col; std::vector<uint64_t> bits; };
struct Kernel {
    const char *name; Group group; bool needsSorted, promisesSorted, inMaskOrder; bool aliasOk; const char *types;
    int mode;       // 0 mask, 1 complement, 2 no mask
    Out (*run)(const Args &);
};
std::vector<Kernel> &all();
struct Add { Add(const Kernel &k) { all().push_back(k); } };
struct Facts { int64_t products = 0, kept = 0, outNnz = 0, emptyMaskRows = 0, maskedAway = 0, collide = 0; bool sortedA, sortedB, sortedM; };
inline Facts facts(const gen::Problem &p, int mode) {
    Facts f; std::vector<int64_t> in(p.B.c, -1), seen(p.B.c, -1);
    for (int64_t i = 0; i < p.A.r; ++i) { for (int64_t k = p.M.ptr[i]; k < p.M.ptr[i + 1]; ++k) in[p.M.col[k]] = i; if (p.M.ptr[i] == p.M.ptr[i + 1]) f.emptyMaskRows++;
        for (int64_t k = p.A.ptr[i]; k < p.A.ptr[i + 1]; ++k) for (int64_t l = p.B.ptr[p.A.col[k]]; l < p.B.ptr[p.A.col[k] + 1]; ++l) { f.products++; int64_t j = p.B.col[l];
            if (mode == 2 || (in[j] == i) == (mode == 0)) { f.kept++; if (seen[j] != i) { seen[j] = i; f.outNnz++; } else f.collide++; } else f.maskedAway++; } }
    f.sortedA = p.A.sortedRows(); f.sortedB = p.B.sortedRows(); f.sortedM = p.M.sortedRows(); return f; }
}
