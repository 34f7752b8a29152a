// A pool of matrices driven by generated histories, next to a model in which matrices are plain values.
#pragma once
#include <numeric>
#include <cstring>
#include <malloc.h>
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "kern.h"
#include "kern_impl.h"
using namespace gen;
typedef HIST_IT IT; typedef HIST_NT NT;
typedef CSR<IT, NT> Mx; typedef CSC<IT, NT> Mc;
typedef gen::Mul<NT> MulT; typedef gen::Add<NT> AddT;

struct Alg { const char *name; bool sorted; int mode; void (*run)(const Mx &, const Mx &, Mx &, const Mx &, MulT, AddT, unsigned); bool inner; void (*runInner)(const Mx &, const Mc &, Mx &, const Mx &, MulT, AddT, unsigned); bool innerAlias; };
#define A_(n, s, m, ...) {n, s, m, [](const Mx &a, const Mx &b, Mx &c, const Mx &mk, MulT mu, AddT ad, unsigned th) { __VA_ARGS__(a, b, c, mk, mu, ad, th); }, false, nullptr, true},
#define I_(n, alias, ...) {n, true, 0, nullptr, true, [](const Mx &a, const Mc &b, Mx &c, const Mx &mk, MulT mu, AddT ad, unsigned th) { __VA_ARGS__(a, b, c, mk, mu, ad, th); }, alias},
static const Alg ALGS[] = {
    A_("MSA1A-1p", false, 0, MaskedSpGEMM1p<MSA1A<false COMMA false>::Impl>)
    A_("MSA2A-1p", false, 0, MaskedSpGEMM1p<MSA2A<false COMMA false>::Impl>)
    A_("MSA1A_old-1p", false, 0, MaskedSpGEMM1p<MSA1A_old>)
    A_("MSA2A_old-1p", false, 0, MaskedSpGEMM1p<MSA2A_old>)
    A_("Hash-1p", false, 0, MaskedSpGEMM1p<MaskedHash<false COMMA false>::Impl>)
    A_("MCA-1p", true, 0, MaskedSpGEMM1p<MCA<false COMMA false>::Impl>)
    A_("Heap0-1p", true, 0, MaskedSpGEMM1p<MaskedHeap<false COMMA true COMMA 0>::Impl>)
    A_("Heap1-1p", true, 0, MaskedSpGEMM1p<MaskedHeap<false COMMA true COMMA 1>::Impl>)
    A_("HeapDot-1p", true, 0, MaskedSpGEMM1p<MaskedHeap<false COMMA true COMMA MaskedHeapDot>::Impl>)
    A_("HeapV2-1p", true, 0, MaskedSpGEMM1p<MaskedHeap_v2>)
    A_("hybrid", true, 0, MaskedSpGEMM1p)
    A_("MSA1A-2p", false, 0, MaskedSpGEMM2p<MSA1A<false COMMA false>::Impl>)
    A_("MSA2A-2p", false, 0, MaskedSpGEMM2p<MSA2A<false COMMA false>::Impl>)
    A_("MSA2A_old-2p", false, 0, MaskedSpGEMM2p<MSA2A_old>)
    A_("Hash-2p", false, 0, MaskedSpGEMM2p<MaskedHash<false COMMA false>::Impl>)
    A_("MCA-2p", true, 0, MaskedSpGEMM2p<MCA<false COMMA false>::Impl>)
    A_("Heap1-2p", true, 0, MaskedSpGEMM2p<MaskedHeap<false COMMA true COMMA 1>::Impl>)
    A_("HeapDot-2p", true, 0, MaskedSpGEMM2p<MaskedHeap<false COMMA true COMMA MaskedHeapDot>::Impl>)
    A_("~MSA1A-1p", false, 1, MaskedSpGEMM1p<MSA1A<true COMMA false>::Impl>)
    A_("~MSA2A-sorted-1p", false, 1, MaskedSpGEMM1p<MSA2A<true COMMA true>::Impl>)
    A_("~Hash-sorted-1p", false, 1, MaskedSpGEMM1p<MaskedHash<true COMMA true>::Impl>)
    A_("~Heap-1p", true, 1, MaskedSpGEMM1p<MaskedHeap<true COMMA true COMMA 0>::Impl>)
    A_("~MSA1A-sorted-2p", false, 1, MaskedSpGEMM2p<MSA1A<true COMMA true>::Impl>)
    A_("~MSA2A-2p", false, 1, MaskedSpGEMM2p<MSA2A<true COMMA false>::Impl>)
    A_("~Hash-2p", false, 1, MaskedSpGEMM2p<MaskedHash<true COMMA false>::Impl>)
    A_("~Heap-2p", true, 1, MaskedSpGEMM2p<MaskedHeap<true COMMA true COMMA 0>::Impl>)
    I_("Inner-1p", true, MaskedSpGEMM1p<MaskedInner>)
    I_("Inner-2p", false, MaskedSpGEMM2p<MaskedInner>)
    I_("InnerM-1p", true, MaskedSpGEMM1pInnerProduct)
    I_("InnerM-2p", false, MaskedSpGEMM2pInnerProduct)
};
static const int NALG = sizeof(ALGS) / sizeof(ALGS[0]);

static HMat fromCSR(const Mx &m) { HMat h; h.r = m.rows; h.c = m.cols; h.ptr.clear(); for (int64_t i = 0; i <= h.r; ++i) h.ptr.push_back(m.rowptr[i]);
    for (int64_t k = 0; k < (int64_t)m.nnz; ++k) { h.col.push_back(m.colids[k]); h.val.push_back((int64_t)m.values[k]); } return h; }

struct Obj { Mx *m = nullptr; HMat h; bool live = false; };     // live: holds a matrix (else default state)
