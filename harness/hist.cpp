// C08: products, copies, assignments over a pool of matrices behave as if matrices were values.
// C27 (HIST_LEAK): the same histories hold no memory once everything is destroyed.
#include "hist.h"
namespace pbt { const char *g_rule =
    "one case = a pool of 2-5 matrices and a history of 1-12 steps: masked products by any of 30 algorithms with any choice of operands and output out of the pool (output equal to operands or mask included, any previous content), "
    "copy construction, assignment, self-assignment, clearing, id sorting; after every step every matrix of the pool is compared with a model in which matrices are values. "
    "Non-trivial: at least two products with non-empty results, one of which uses a matrix produced earlier in the history; distinct by the list of generator draws"; }
#ifdef HIST_LEAK
extern "C" { long long ac_live(); long long ac_blocks(); }
#endif
struct History {
    std::vector<Obj> pool; std::vector<int64_t> dims; int products = 0, chained = 0, aliased = 0; std::string trace; bool check;
    std::vector<bool> produced;
    ~History() { for (auto &o : pool) delete o.m; }
    void verify(const char *what, int except = -1) { if (!check) return; for (size_t i = 0; i < pool.size(); ++i) { Obj &o = pool[i]; if (!o.live || (int)i == except) continue;
            PBT_CHECK(kernimpl::sameAs(o.h, *o.m), "after %s: matrix #%zu, not written by this step, changed", what, i); } }
    void step(pbt::Tape &t) {
        int n = pool.size(); int op = t.weighted({12, 2, 2, 1, 1, 1, 1});
        if (op == 0) {
            int alg = t.draw(NALG); const Alg &al = ALGS[alg]; int sa = t.draw(n), sb = t.draw(n), sm = t.draw(n), out = t.draw(n);
            // complete to fitting operands: search from the drawn indices
            int a = -1, b = -1, m = -1;
            for (int x = 0; x < n && m < 0; ++x) for (int y = 0; y < n && m < 0; ++y) for (int z = 0; z < n && m < 0; ++z) { int i = (sa + x) % n, j = (sb + y) % n, k = (sm + z) % n;
                Obj &A = pool[i], &B = pool[j], &M = pool[k]; if (!A.live || !B.live || !M.live || A.h.c != B.h.r || M.h.r != A.h.r || M.h.c != B.h.c) continue;
                if (al.sorted && !(A.h.sortedRows() && B.h.sortedRows() && M.h.sortedRows())) continue;
                if (A.h.nnz() > 3000 || B.h.nnz() > 3000) continue;
                a = i; b = j; m = k; }
            if (m < 0) return;
            bool alias = out == a || out == b || out == m; if (al.inner && (out == a || out == m) && !al.innerAlias) return;
            int semi = t.draw(7); unsigned th = 1 + t.draw(6);
            if (trace.size() < 1500) trace += strf(" #%d=%s(#%d,#%d,mask #%d,%s,threads %u)", out, al.name, a, b, m, semiName(semi), th);
            auto ref = check ? gen::reference<NT>(pool[a].h, pool[b].h, &pool[m].h, al.mode, semi) : std::vector<std::map<int64_t, NT>>();
            Obj &O = pool[out]; int64_t rr = pool[a].h.r, cc = pool[b].h.c;
            if (al.inner) { Mc csc; kernimpl::toCSC(gen::transpose(pool[b].h), csc, pool[b].h.r); al.runInner(*pool[a].m, csc, *O.m, *pool[m].m, MulT{semi}, AddT{semi}, th); }
            else al.run(*pool[a].m, *pool[b].m, *O.m, *pool[m].m, MulT{semi}, AddT{semi}, th);
            std::string e = kernimpl::structure(*O.m, rr, cc, false); PBT_CHECK(e.empty(), "%s: %s", al.name, e.c_str());
            if (check) { e = kernimpl::compareRef(*O.m, ref); PBT_CHECK(e.empty(), "%s (output #%d%s): %s", al.name, out, alias ? ", also an operand" : "", e.c_str()); }
            verify(al.name, out); bool nz = O.m->nnz > 0; if (nz) { ++products; if (produced[a] || produced[b] || produced[m]) ++chained; if (alias) ++aliased; }
            O.h = fromCSR(*O.m); O.live = true; produced[out] = true;
        } else if (op == 1) {   // copy construction replaces an object
            int s = t.draw(n), d = t.draw(n); if (!pool[s].live) return; Mx *c = new Mx(*pool[s].m); if (trace.size() < 1500) trace += strf(" #%d=copy(#%d)", d, s);
            PBT_CHECK(!check || kernimpl::sameAs(pool[s].h, *c), "copy of #%d differs from it", s);
            HMat h = pool[s].h; bool pr = produced[s]; delete pool[d].m; pool[d].m = c; pool[d].h = h; pool[d].live = true; produced[d] = pr; verify("copy construction");
        } else if (op == 2) {   // assignment over whatever is there (self-assignment included)
            int s = t.draw(n), d = t.draw(n); if (!pool[s].live) return; if (trace.size() < 1500) trace += strf(" #%d:=#%d", d, s);
            *pool[d].m = *pool[s].m; pool[d].h = HMat(pool[s].h); pool[d].live = true; produced[d] = produced[s];
            verify("assignment");
        } else if (op == 3) {   // clear
            int d = t.draw(n); int livec = 0; for (auto &o : pool) livec += o.live; if (livec < 2) return; pool[d].m->make_empty(); pool[d].live = false; pool[d].h = HMat(); if (trace.size() < 1500) trace += strf(" clear #%d", d);
            PBT_CHECK(pool[d].m->rows == 0 && pool[d].m->cols == 0 && pool[d].m->nnz == 0, "cleared matrix still has a shape or entries"); verify("clearing");
        } else if (op == 4) { int d = t.draw(n); if (!pool[d].live) return; if (trace.size() < 1500) trace += strf(" sort #%d", d); pool[d].m->sortIds(); pool[d].h = sortedCopy(pool[d].h); verify("sortIds");
        } else if (op == 5) {   // generate afresh
            int d = t.draw(n); if (trace.size() < 1500) trace += strf(" #%d=new", d); makeNew(t, d); verify("construction");
        } else {                // read access
            int d = t.draw(n); if (!pool[d].live) return; Mx c(*pool[d].m); Mx e; e = c; PBT_CHECK(!check || kernimpl::sameAs(pool[d].h, e), "a copy of a copy differs"); verify("copying"); }
    }
    void makeNew(pbt::Tape &t, int d) { int64_t r = dims[t.draw(dims.size())], c = dims[t.draw(dims.size())];
        ValSpec vs; HMat h = genMat(t, r, c, 60 + r * 3, vs, t.chance(1, 4)); if (!pool[d].m) pool[d].m = new Mx(); kernimpl::toCSR(h, *pool[d].m); pool[d].h = h; pool[d].live = true; produced[d] = false; }
    void run(pbt::Tape &t, bool chk) {
        check = chk; int n = 2 + t.draw(4); int nd = 1 + t.weighted({4, 2, 1}); for (int i = 0; i < nd; ++i) dims.push_back(t.weighted({5, 2, 1}) == 0 ? t.range(1, 7) : t.range(1, 60));
        pool.resize(n); produced.assign(n, false); for (int i = 0; i < n; ++i) makeNew(t, i);
        int steps = t.range(1, 12); for (int i = 0; i < steps; ++i) step(t);
    } };
#ifndef HIST_LEAK
PBT_PROP(history, 1) { History h; if (t.chance(1, 2)) mallopt(M_PERTURB, 1 + t.draw(255)); else mallopt(M_PERTURB, 0);
    h.run(t, true); std::string d; for (size_t i = 0; i < h.pool.size(); ++i) if (d.size() < 300) d += strf("#%zu %ldx%ld ", i, (long)h.pool[i].h.r, (long)h.pool[i].h.c); ctx.note(d + h.trace);
    ctx.nontrivial = h.products >= 2 && h.chained >= 1; if (h.aliased) ctx.label("output-is-an-operand"); if (h.chained) ctx.label("uses-an-earlier-result"); ctx.label(strf("pool-%zu", h.pool.size())); }
#else
PBT_PROP(leak, 1) {
    // replay one generated history several times from the same draws: once warmed up, the bytes held must not grow
    std::vector<uint64_t> draws; int products = 0, chained = 0; std::string trace;
    { size_t from = t.rec->len; History h; h.run(t, false); products = h.products; chained = h.chained; trace = h.trace; draws.assign(t.rec->v + from, t.rec->v + t.rec->len); }
    std::string().swap(trace); 
    static pbt::TapeBuf *tb = new pbt::TapeBuf; long long held[5];
    for (int i = 0; i < 5; ++i) { { pbt::Tape r(tb, &draws); History h; h.run(r, false); if (i == 4 && ctx.desc.empty()) {} } held[i] = ac_live(); }
    bool grows = held[1] > held[0] && held[2] > held[1] && held[3] > held[2] && held[4] > held[3] && held[4] - held[3] == held[3] - held[2];
    { pbt::Tape r(tb, &draws); History h; h.run(r, false); ctx.note(h.trace); }
    ctx.nontrivial = products >= 2 && chained >= 1;
    PBT_CHECK(!grows, "every repetition of this history leaves %lld more bytes allocated", held[4] - held[3]);
}
PBT_PROP(leak_single, 1) {
    // one algorithm, one problem, result destroyed: bytes held after the call minus before, and result's own storage while alive
    int alg = t.draw(NALG); const Alg &al = ALGS[alg]; ProblemOpts o; o.unsortedA = o.unsortedB = o.unsortedM = false; o.maxShape = 6; Problem p = genProblem(t, o);
    ctx.note(std::string(al.name) + " " + describe(p)); kern::Facts f = kern::facts(p, al.mode); ctx.nontrivial = f.kept > 0 && f.maskedAway > 0;
    Mx A, B, M; kernimpl::toCSR(p.A, A); kernimpl::toCSR(p.B, B); kernimpl::toCSR(p.M, M); Mc csc; if (al.inner) kernimpl::toCSC(gen::transpose(p.B), csc, p.B.r);
    auto once = [&]() { Mx C; if (al.inner) al.runInner(A, csc, C, M, MulT{p.semi}, AddT{p.semi}, p.threads); else al.run(A, B, C, M, MulT{p.semi}, AddT{p.semi}, p.threads); return ac_live(); };
    long long in[5], after[5]; for (int i = 0; i < 5; ++i) { in[i] = once(); after[i] = ac_live(); }
    bool grows = true; for (int i = 1; i < 5; ++i) grows = grows && after[i] > after[i - 1]; grows = grows && after[4] - after[3] == after[3] - after[2];
    PBT_CHECK(!grows, "%s: every call leaves %lld more bytes allocated after its result is destroyed", al.name, after[4] - after[3]);
    long long result = (long long)sizeof(IT) * (p.A.r + 1) + f.outNnz * (long long)(sizeof(IT) + sizeof(NT)); long long held = in[4] - after[4]; for (int i = 0; i < 4; ++i) held = std::min(held, in[i] - after[i]);   // the thread pool may release its own memory meanwhile
    
    PBT_CHECK(held <= result, "%s: the result needs %lld bytes, the call keeps %lld", al.name, result, held);
}
#endif
