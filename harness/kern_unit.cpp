// One translation unit per (group, index type, value type): instantiates the repository's kernels.
#include <numeric>
#include <cstring>
#include <malloc.h>
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "kern.h"
#include "kern_impl.h"

#define KSTR2(x) #x
#define KSTR(x) KSTR2(x)
#define TYPES KSTR(KU_IT) "/" KSTR(KU_NT)

#define CSR_KERNEL(id, label, grp, sorted_in, sorted_out, maskorder, mode, ...) \
    struct K_##id { static void run(const CSR<KU_IT, KU_NT> &A, const CSR<KU_IT, KU_NT> &B, const gen::Problem &, CSR<KU_IT, KU_NT> &C, const CSR<KU_IT, KU_NT> &M, Mul mul, Add add, unsigned th) { __VA_ARGS__(A, B, C, M, mul, add, th); } }; \
    static kern::Add reg_##id({label, kern::grp, sorted_in, sorted_out, maskorder, true, TYPES, mode, kernimpl::checkRun<K_##id, KU_IT, KU_NT, (mode)>});
#define INNER_KERNEL(id, label, alias, ...) \
    struct K_##id { static void run(const CSR<KU_IT, KU_NT> &A, const CSR<KU_IT, KU_NT> &, const gen::Problem &p, CSR<KU_IT, KU_NT> &C, const CSR<KU_IT, KU_NT> &M, Mul mul, Add add, unsigned th) { \
        kernimpl::CscHolder<KU_IT, KU_NT> B(p.B); __VA_ARGS__(A, B.m, C, M, mul, add, th); B.verify(); } }; \
    static kern::Add reg_##id({label, kern::INNER, true, true, true, alias, TYPES, 0, kernimpl::checkRun<K_##id, KU_IT, KU_NT, 0>});

using Mul = gen::Mul<KU_NT>; using Add = gen::Add<KU_NT>;
namespace {
#if KU_GROUP == 0 || KU_GROUP == 1
#if KU_GROUP == 0
#define FN MaskedSpGEMM1p
#define GRP G1P
#else
#define FN MaskedSpGEMM2p
#define GRP G2P
#endif
CSR_KERNEL(msa1a, "MSA1A", GRP, false, false, true, 0, FN<MSA1A<false COMMA false>::Impl>)
CSR_KERNEL(msa2a, "MSA2A", GRP, false, false, true, 0, FN<MSA2A<false COMMA false>::Impl>)
CSR_KERNEL(msa1a_old, "MSA1A_old", GRP, false, false, true, 0, FN<MSA1A_old>)
CSR_KERNEL(msa2a_old, "MSA2A_old", GRP, false, false, true, 0, FN<MSA2A_old>)
CSR_KERNEL(hash, "MaskedHash", GRP, false, false, true, 0, FN<MaskedHash<false COMMA false>::Impl>)
CSR_KERNEL(mca, "MCA", GRP, true, true, true, 0, FN<MCA<false COMMA false>::Impl>)
#elif KU_GROUP == 10 || KU_GROUP == 11
#if KU_GROUP == 10
#define FN MaskedSpGEMM1p
#define GRP G1P
#else
#define FN MaskedSpGEMM2p
#define GRP G2P
#endif
CSR_KERNEL(heap_v0, "MaskedHeap_v0", GRP, true, true, true, 0, FN<MaskedHeap_v0>)
CSR_KERNEL(heap_v1, "MaskedHeap_v1", GRP, true, true, true, 0, FN<MaskedHeap_v1>)
CSR_KERNEL(heap_v2, "MaskedHeap_v2", GRP, true, true, true, 0, FN<MaskedHeap_v2>)
CSR_KERNEL(heap_0, "MaskedHeap<0>", GRP, true, true, true, 0, FN<MaskedHeap<false COMMA true COMMA 0>::Impl>)
CSR_KERNEL(heap_1, "MaskedHeap<1>", GRP, true, true, true, 0, FN<MaskedHeap<false COMMA true COMMA 1>::Impl>)
CSR_KERNEL(heap_8, "MaskedHeap<8>", GRP, true, true, true, 0, FN<MaskedHeap<false COMMA true COMMA 8>::Impl>)
CSR_KERNEL(heap_64, "MaskedHeap<64>", GRP, true, true, true, 0, FN<MaskedHeap<false COMMA true COMMA 64>::Impl>)
CSR_KERNEL(heap_dot, "MaskedHeap<Dot>", GRP, true, true, true, 0, FN<MaskedHeap<false COMMA true COMMA MaskedHeapDot>::Impl>)
#elif KU_GROUP == 2 || KU_GROUP == 3
#if KU_GROUP == 2
#define FN MaskedSpGEMM1p
#define GRP C1P
#else
#define FN MaskedSpGEMM2p
#define GRP C2P
#endif
CSR_KERNEL(cmsa1a, "~MSA1A", GRP, false, false, false, 1, FN<MSA1A<true COMMA false>::Impl>)
CSR_KERNEL(cmsa1as, "~MSA1A-sorted", GRP, false, true, false, 1, FN<MSA1A<true COMMA true>::Impl>)
CSR_KERNEL(cmsa2a, "~MSA2A", GRP, false, false, false, 1, FN<MSA2A<true COMMA false>::Impl>)
CSR_KERNEL(cmsa2as, "~MSA2A-sorted", GRP, false, true, false, 1, FN<MSA2A<true COMMA true>::Impl>)
CSR_KERNEL(chash, "~MaskedHash", GRP, false, false, false, 1, FN<MaskedHash<true COMMA false>::Impl>)
CSR_KERNEL(chashs, "~MaskedHash-sorted", GRP, false, true, false, 1, FN<MaskedHash<true COMMA true>::Impl>)
CSR_KERNEL(cheap, "~MaskedHeap<0>", GRP, true, true, false, 1, FN<MaskedHeap<true COMMA true COMMA 0>::Impl>)
#elif KU_GROUP == 4
INNER_KERNEL(in1, "MaskedInner-1p", true, MaskedSpGEMM1p<MaskedInner>)
INNER_KERNEL(in2, "MaskedInner-2p", false, MaskedSpGEMM2p<MaskedInner>)
INNER_KERNEL(in1m, "InnerProduct-1p", true, MaskedSpGEMM1pInnerProduct)
INNER_KERNEL(in2m, "InnerProduct-2p", false, MaskedSpGEMM2pInnerProduct)
#elif KU_GROUP == 5
CSR_KERNEL(poly, "hybrid", POLY, true, true, true, 0, MaskedSpGEMM1p)
#endif
}
