// The baseline masked products and the unmasked products, each behind the same kernel interface.
// Headers without include guards or with clashing names go into namespaces of their own.
#include <numeric>
#include <cstring>
#include <cassert>
#include <array>
#include <tuple>
#include <map>
#include <set>
#include <thread>
#include <malloc.h>
#include "CSR.h"
#include "CSC.h"
#include "Triple.h"
#include "BIN.h"
#include "SPA.h"
#include "HeapEntry.h"
#include "hash_mult_hw.h"
#include "heap_mult_generic.h"
#include "mask_hash.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#include "radix_sort/radix_sort.hpp"
#include "pdqsort/pdqsort.h"
#include "vergesort/vergesort.h"
#include "cpp-TimSort/include/gfx/timsort.hpp"
namespace ns_inner {
#include "inner_mult.h"
}
namespace ns_heap {
#include "heap_mult.h"
}
#if KU_GROUP == 8
namespace ns_om1 {
#include "outer_mult.h"
}
#undef SIZE
#undef TBB
namespace ns_om2 {
#include "outer_mult2.h"
}
#undef SIZE
namespace ns_op1 {
#include "outer_profile.h"
}
#undef SIZE
namespace ns_op2 {
#include "outer_profile2.h"
}
#undef SIZE
#endif
#include "kern.h"
#include "kern_impl.h"
namespace kern { extern int g_nblockers, g_blockwidth; }
#define KSTR2(x) #x
#define KSTR(x) KSTR2(x)
#define TYPES KSTR(KU_IT) "/" KSTR(KU_NT)
using Mul = gen::Mul<KU_NT>; using Add = gen::Add<KU_NT>;
typedef CSR<KU_IT, KU_NT> Mx; typedef CSC<KU_IT, KU_NT> Mc;

static void cscToCsr(Mc &c, Mx &m, int64_t rows, int64_t cols) {     // checks the column-compressed result while converting it
    if ((int64_t)c.rows != rows || (int64_t)c.cols != cols) pbt::fail("column-compressed result is %ld x %ld, expected %ld x %ld", (long)c.rows, (long)c.cols, (long)rows, (long)cols);
    if (c.colptr[0] != 0 || (int64_t)c.colptr[cols] != (int64_t)c.nnz) pbt::fail("column offsets run from %ld to %ld, nnz is %ld", (long)c.colptr[0], (long)c.colptr[cols], (long)c.nnz);
    gen::HMat h; h.r = cols; h.c = rows; h.ptr.assign(1, 0); std::vector<KU_NT> v;
    for (int64_t j = 0; j < cols; ++j) { if (c.colptr[j + 1] < c.colptr[j]) pbt::fail("column offsets decrease at %ld", (long)j);
        for (int64_t k = c.colptr[j]; k < (int64_t)c.colptr[j + 1]; ++k) { int64_t i = c.rowids[k]; if (i < 0 || i >= rows) pbt::fail("row id %ld outside [0,%ld)", (long)i, (long)rows);
            if (k > (int64_t)c.colptr[j] && (int64_t)c.rowids[k - 1] >= i) pbt::fail("column %ld: rows %ld,%ld out of order", (long)j, (long)c.rowids[k - 1], (long)i);
            h.col.push_back(i); h.val.push_back((int64_t)v.size()); v.push_back(c.values[k]); }
        h.ptr.push_back(h.nnz()); }
    gen::HMat t = gen::transpose(h); kernimpl::toCSR(t, m); for (int64_t k = 0; k < t.nnz(); ++k) m.values[k] = v[t.val[k]]; }

#define LEG(id, label, grp, sorted_in, sorted_out, mode, ...) \
    struct K_##id { static void run(const Mx &A, const Mx &B, const gen::Problem &p, Mx &C, const Mx &M, Mul mul, Add add, unsigned th) { (void)p; unsigned nt = th ? th : omp_get_max_threads(); (void)nt; __VA_ARGS__; } }; \
    static kern::Add reg_##id({label, kern::grp, sorted_in, sorted_out, false, false, TYPES, mode, kernimpl::checkRun<K_##id, KU_IT, KU_NT, (mode)>});
namespace {
#if KU_GROUP == 6
LEG(spa, "MaskedSPASpGEMM", LEGACY, false, false, 0, MaskedSPASpGEMM(A, B, C, M, mul, add, nt))
LEG(hm, "mxm_hash_mask", LEGACY, false, false, 0, mxm_hash_mask(A, B, C, M, mul, add, nt))
LEG(hmw, "mxm_hash_mask_wobin", LEGACY, false, false, 0, mxm_hash_mask_wobin(A, B, C, M, mul, add, nt))
LEG(inn, "innerSpGEMM_nohash", LEGACY, true, true, 0, kernimpl::CscHolder<KU_IT COMMA KU_NT> b(p.B); ns_inner::innerSpGEMM_nohash<false, false>(A, b.m, C, M, mul, add, nt); b.verify())
LEG(hp0, "HeapSpGEMM<MaskedHeap_v0>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MaskedHeap_v0>(A, B, C, M, mul, add, th))
LEG(hp1, "HeapSpGEMM<MaskedHeap_v1>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MaskedHeap_v1>(A, B, C, M, mul, add, th))
LEG(hp2, "HeapSpGEMM<MaskedHeap_v2>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MaskedHeap_v2>(A, B, C, M, mul, add, th))
LEG(mc1, "HeapSpGEMM<MCA_v1>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MCA_v1>(A, B, C, M, mul, add, th))
LEG(mc2, "HeapSpGEMM<MCA_v2>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MCA_v2>(A, B, C, M, mul, add, th))
LEG(mc3, "HeapSpGEMM<MCA_v3>", LEGACY, true, true, 0, HeapSpGEMM<rowAlg::MCA_v3>(A, B, C, M, mul, add, th))
struct First { KU_NT operator()(const KU_NT &a, const KU_NT &) const { return a; } };
LEG(int1, "HashSpGEMM<sorted>+Intersect", LEGACY, true, true, 0, Mx T; HashSpGEMM<true>(A, B, T, mul, add, nt); C.make_empty(); C = Intersect(T, M, First()))
LEG(int2, "HashSpGEMM<unsorted>+sortIds+Intersect", LEGACY, true, true, 0, Mx T; HashSpGEMM<false>(A, B, T, mul, add, nt); T.sortIds(); C.make_empty(); C = Intersect(T, M, First()))
#elif KU_GROUP == 7
LEG(hs, "HashSpGEMM<sorted>", UNMASKED, false, true, 2, HashSpGEMM<true>(A, B, C, mul, add, nt))
LEG(hu, "HashSpGEMM<unsorted>", UNMASKED, false, false, 2, HashSpGEMM<false>(A, B, C, mul, add, nt))
LEG(bh, "HeapSpGEMM<BasicHeap>", UNMASKED, true, true, 2, HeapSpGEMM<rowAlg::BasicHeap>(A, B, C, mul, add, th))
LEG(hl1, "HeapSpGEMM<HeapLinear<1>>", UNMASKED, true, true, 2, HeapSpGEMM<rowAlg::HeapLinear<1>>(A, B, C, mul, add, th))
LEG(hl4, "HeapSpGEMM<HeapLinear<4>>", UNMASKED, true, true, 2, HeapSpGEMM<rowAlg::HeapLinear<4>>(A, B, C, mul, add, th))
LEG(hl64, "HeapSpGEMM<HeapLinear<64>>", UNMASKED, true, true, 2, HeapSpGEMM<rowAlg::HeapLinear<64>>(A, B, C, mul, add, th))
LEG(hc, "HeapSpGEMM (columns)", UNMASKED, true, true, 2, omp_set_num_threads(nt); kernimpl::CscHolder<KU_IT COMMA KU_NT> a(p.A); kernimpl::CscHolder<KU_IT COMMA KU_NT> b(p.B); Mc c; ns_heap::HeapSpGEMM(a.m, b.m, c, mul, add); a.verify(); b.verify(); C.make_empty(); cscToCsr(c, C, p.A.r, p.B.c))
#elif KU_GROUP == 8
#define OUTER_RUN(call) omp_set_num_threads(nt); kernimpl::CscHolder<KU_IT COMMA KU_NT> a(p.A); C.make_empty(); call; a.verify()
LEG(o1, "OuterSpGEMM", OUTER, false, true, 2, OUTER_RUN(ns_om1::OuterSpGEMM(a.m, B, C, kern::g_nblockers, kern::g_blockwidth, 1)))
LEG(o2, "OuterSpGEMM (profiled)", OUTER, false, true, 2, OUTER_RUN(ns_op1::OuterSpGEMM(a.m, B, C, kern::g_nblockers, kern::g_blockwidth)))
LEG(o3, "OuterSpGEMM2", OUTER, false, true, 2, if (p.A.r != p.A.c || p.A.r >= 65536 || p.B.c >= 65536) throw pbt::Discard{"outside the domain"}; OUTER_RUN(ns_om2::OuterSpGEMM(a.m, B, C, kern::g_nblockers, kern::g_blockwidth)))
LEG(o4, "OuterSpGEMM2 (profiled)", OUTER, false, true, 2, if (p.A.r != p.A.c || p.A.r >= 65536 || p.B.c >= 65536) throw pbt::Discard{"outside the domain"}; OUTER_RUN(ns_op2::OuterSpGEMM(a.m, B, C, kern::g_nblockers, kern::g_blockwidth)))
#endif
}
