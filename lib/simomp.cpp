// See simomp.h. Defines the entry points gcc emits for OpenMP and for -fsanitize=thread (libgomp and libtsan are not linked).
#include "simomp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <deque>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <new>
#include <malloc.h>
#include <time.h>
#include <ucontext.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <pthread.h>
#include <omp.h>
#include "pbt.h"
extern "C" { void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void *__real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t);
    void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t); }
namespace sim {
static const int MAXT = 300; static const size_t STACK = 1 << 20;
static int g_threads = 4; static Schedule S; static Stats st; static pbt::Rng rng; static std::string race; static bool active = false;
struct WS { uint64_t next = 0, end = 0, incr = 1, chunk = 1; bool up = true, init = false, uns = false; int finished = 0; bool taken = false; void *copy = nullptr; };
struct Team { int n = 1; std::vector<WS> ws; int arrived = 0; uint64_t gen = 0; };
typedef std::vector<uint32_t> VC;
struct Fiber { ucontext_t ctx; char *stack = nullptr; int id = 0; Team *team = nullptr; int tid = 0; size_t wsIdx = 0; bool done = true, waiting = false; const void *lock = nullptr; void (*fn)(void *) = nullptr; void *arg = nullptr; VC vc; int64_t prio = 0; };
static Fiber *fibers[MAXT]; static Fiber *cur = nullptr; static Team soloTeam; static int nfib = 0; static ucontext_t mainCtx;
static int64_t budget = 0; static uint64_t stay = 0; static std::vector<uint64_t> changeAt; static uint64_t regionAcc = 0;

// ---- shadow memory, valid since the last point that ordered the whole team ----
struct Cell { uint32_t clk; uint16_t tid; uint8_t mask, kind; const void *pc; };      // kind: 1 write, 2 atomic
struct Gran { uint64_t key = 0, gen = 0; std::vector<Cell> c; };
static std::vector<Gran> tab(1 << 12); static uint64_t tgen = 1; static size_t tused = 0;
static void clearShadow() { ++tgen; tused = 0; }
static Gran *look(uint64_t key, bool make) {
    size_t m = tab.size() - 1, i = pbt::mix64(key) & m;
    for (;; i = (i + 1) & m) { Gran &g = tab[i]; if (g.gen != tgen) { if (!make) return nullptr; break; } if (g.key == key) return &g; }
    if (tused * 2 > tab.size()) { std::vector<Gran> o(tab.size() * 2); o.swap(tab); m = tab.size() - 1;
        for (auto &g : o) if (g.gen == tgen) { size_t j = pbt::mix64(g.key) & m; while (tab[j].gen == tgen) j = (j + 1) & m; std::swap(tab[j], g); }
        i = pbt::mix64(key) & m; while (tab[i].gen == tgen) i = (i + 1) & m; }
    Gran &g = tab[i]; g.key = key; g.gen = tgen; g.c.clear(); ++tused; return &g; }

static std::string where(const void *pc) {
    static std::map<const void *, std::string> cache; auto it = cache.find(pc); if (it != cache.end()) return it->second;
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) n = 0; exe[n] = 0; std::string r;
    if (FILE *f = popen(pbt::strf("addr2line -s -e '%s' %p 2>/dev/null", exe, (void *)((char *)pc - 1)).c_str(), "r")) { char b[300]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n ")] = 0; if (!r.empty()) r += "<"; r += b; } pclose(f); }
    return cache[pc] = r; }
static void report(const Cell &o, int tid, bool wr, const void *pc, const char *what) {
    if (!race.empty()) return;
    race = pbt::strf("data race: thread %d %s at %s while thread %d %s the same memory at %s, nothing orders the two", tid, what, where(pc).c_str(), o.tid, (o.kind & 1) ? "writes" : "reads", where(o.pc).c_str()); (void)wr; }
static void touch(uint64_t key, uint8_t mask, uint8_t kind, const void *pc, const char *what) {
    Gran *g = look(key, true); Fiber *f = cur; uint32_t now = f->vc[f->id]; bool stored = false;
    for (Cell &c : g->c) {
        if (c.tid == f->id) { if (c.kind == kind && (c.mask & ~mask) == 0 && !stored) { c.clk = now; c.mask = mask; c.pc = pc; stored = true; } continue; }
        if (!(c.mask & mask) || !((c.kind | kind) & 1) || ((c.kind & kind) & 2)) continue;
        if (c.clk > f->vc[c.tid]) report(c, f->id, kind & 1, pc, what); }
    if (!stored) g->c.push_back({now, (uint16_t)f->id, mask, kind, pc}); }
static void yieldTo(Fiber *n);
static void pick();
static void maybeSwitch() {
    ++st.accesses; ++regionAcc;
    if (!S.gap && ++stay > (1u << 22)) { stay = 0; cur->prio = -(int64_t)regionAcc; }     // it may be waiting in a loop for another thread
    else if (S.gap) { if (--budget > 0) return; budget = 1 + (int64_t)rng.below(2 * S.gap - 1); }
    else if (!changeAt.empty() && changeAt.back() <= regionAcc) { changeAt.pop_back(); cur->prio = -(int64_t)regionAcc; }
    else return;
    pick(); }
static bool busy = false; struct Busy { bool o; Busy() : o(busy) { busy = true; } ~Busy() { busy = o; } };    // inside the runtime: its own allocations are not the program's (never held across a switch)
static inline bool on() { return active && !busy && cur && nfib > 1; }
static char *tlsAt; static size_t tlsLen;
static void access(const void *p, size_t n, uint8_t kind, const void *pc, const char *what) {
    if (!on() || !n) return;
    maybeSwitch(); if (tlsLen && (char *)p >= tlsAt && (char *)p < tlsAt + tlsLen) return;
    Busy b; uint64_t a = (uint64_t)p, e = a + n;
    for (uint64_t k = a >> 3; k <= (e - 1) >> 3; ++k) { uint64_t lo = std::max(a, k << 3) & 7, hi = std::min(e, (k + 1) << 3) - (k << 3); touch(k, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), kind, pc, what); } }
static void forget(const void *p, size_t n) { if (!on() || !n) return; Busy b; uint64_t a = (uint64_t)p, e = a + n; for (uint64_t k = a >> 3; k <= (e - 1) >> 3; ++k) if (Gran *g = look(k, false)) g->c.clear(); }

// ---- scheduling ----
static bool runnable(Fiber *f) { return !f->done && !f->waiting && !f->lock; }
// thread_local variables of the program: every simulated thread has its own copy, exchanged at a switch
static bool tlsKnown = false; static std::vector<std::vector<char>> tlsCopy;
static int tlsFind(dl_phdr_info *i, size_t, void *) { if (i->dlpi_name && *i->dlpi_name) return 0; for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) { tlsAt = (char *)i->dlpi_tls_data; tlsLen = i->dlpi_phdr[k].p_memsz; } return 1; }
static void tlsInit() { if (!tlsKnown) { tlsKnown = true; dl_iterate_phdr(tlsFind, nullptr); } if (tlsLen && tlsCopy.empty()) tlsCopy.assign(MAXT, std::vector<char>(tlsAt, tlsAt + tlsLen)); }
static void tlsSwap(Fiber *o, Fiber *n) { if (!tlsLen) return; if (o) __real_memcpy(tlsCopy[o->id].data(), tlsAt, tlsLen); if (n) __real_memcpy(tlsAt, tlsCopy[n->id].data(), tlsLen); }
static void yieldTo(Fiber *n) { if (n == cur) return; Fiber *o = cur; cur = n; stay = 0; ++st.switches; tlsSwap(o, n); swapcontext(&o->ctx, &n->ctx); }
static Fiber *choose() {
    Fiber *best = nullptr; int k = 0;
    for (int i = 0; i < nfib; ++i) { Fiber *f = fibers[i]; if (!runnable(f)) continue; ++k;
        if (S.gap) { if (rng.below(k) == 0) best = f; } else if (!best || f->prio > best->prio) best = f; }
    return best; }
static void pick() { Fiber *n = choose(); if (n) yieldTo(n); }
static void block() { Fiber *n = choose(); if (!n) { fprintf(stderr, "deadlock: every thread of the team waits\n"); abort(); } yieldTo(n); }   // the caller has marked itself
static void entry() { Fiber *f = cur; f->fn(f->arg); f->done = true; f->waiting = false;
    Fiber *n = choose(); if (n) { cur = n; ++st.switches; tlsSwap(f, n); setcontext(&n->ctx); }
    bool all = true; for (int i = 0; i < nfib; ++i) all = all && fibers[i]->done;
    if (!all) { fprintf(stderr, "deadlock: threads wait for one that has left\n"); abort(); }
    tlsSwap(f, fibers[0]); cur = nullptr; setcontext(&mainCtx); }     // thread 0 goes on as the caller

void begin(const Schedule &s) { S = s; rng = pbt::Rng(s.seed); st = Stats(); race.clear(); active = true; clearShadow(); }
std::string end() { active = false; return race; }
const Stats &stats() { return st; }

static void parallel(void (*fn)(void *), void *arg, unsigned want, const WS *loop = nullptr) {
    int n = want ? (int)want : g_threads; if (S.granted && active) n = std::min(n, S.granted); if (n > MAXT) n = MAXT; if (n < 1) n = 1;
    ++st.regions;
    if (cur || n == 1) {                // nested (one active level) or alone
        Team *tp; { Busy b; tp = new Team; tp->n = 1; if (loop) tp->ws.push_back(*loop); } Team &t = *tp;
        static Fiber lone; Fiber *f = cur; bool top = !f; if (top) { f = &lone; f->vc.assign(MAXT, 1); f->id = 0; cur = f; }
        Team *pt = f->team; int ptid = f->tid; size_t pw = f->wsIdx; f->team = &t; f->tid = 0; f->wsIdx = 0; fn(arg);
        f->team = pt; f->tid = ptid; f->wsIdx = pw; if (top) cur = nullptr; { Busy b; delete tp; } return; }
    ++st.teams; st.maxTeam = std::max<uint64_t>(st.maxTeam, n); Team t; t.n = n; if (loop) t.ws.push_back(*loop); nfib = n; clearShadow(); regionAcc = 0;
    for (int i = 0; i < n; ++i) { if (!fibers[i]) { fibers[i] = new Fiber; fibers[i]->id = i; void *m = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) abort(); fibers[i]->stack = (char *)m; }
        Fiber *f = fibers[i]; f->team = &t; f->tid = i; f->wsIdx = 0; f->done = f->waiting = false; f->lock = nullptr; f->fn = fn; f->arg = arg; f->vc.assign(MAXT, 1); f->vc[i] = 2;
        f->prio = S.order == 0 ? n - i : S.order == 1 ? i + 1 : 1 + (int64_t)rng.below(1000000);
        getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = nullptr; makecontext(&f->ctx, (void (*)())entry, 0); }
    budget = S.gap ? 1 + (int64_t)rng.below(2 * S.gap - 1) : 0; changeAt.clear();
    if (!S.gap) { static uint64_t lastLen = 1000; for (int i = 0; i < S.changes; ++i) changeAt.push_back(1 + rng.below(4000)); (void)lastLen; std::sort(changeAt.rbegin(), changeAt.rend()); }
    { Busy b; tlsInit(); } if (tlsLen) __real_memcpy(tlsCopy[0].data(), tlsAt, tlsLen);
    cur = choose(); tlsSwap(nullptr, cur); swapcontext(&mainCtx, &cur->ctx); nfib = 0; cur = nullptr; clearShadow(); }
static void barrier() {
    if (!cur || cur->team->n == 1) return;
    Team *t = cur->team; ++st.barriers;
    if (++t->arrived == t->n) { Busy b; t->arrived = 0; VC m(MAXT, 0); for (int i = 0; i < t->n; ++i) for (int j = 0; j < MAXT; ++j) m[j] = std::max(m[j], fibers[i]->vc[j]);
        for (int i = 0; i < t->n; ++i) { fibers[i]->vc = m; ++fibers[i]->vc[i]; fibers[i]->waiting = false; } clearShadow(); busy = b.o; pick(); busy = b.o; return; }
    cur->waiting = true; block(); }
struct Lock { Fiber *owner = nullptr; VC vc; int depth = 0; };
static std::map<const void *, Lock> locks;
static void acquire(const void *p) {
    if (!on()) return;
    ++st.locks; maybeSwitch(); Lock *lp; { Busy b; lp = &locks[p]; if (lp->vc.empty()) lp->vc.assign(MAXT, 0); } Lock &l = *lp;
    while (l.owner && l.owner != cur) { cur->lock = p; block(); }
    l.owner = cur; for (int j = 0; j < MAXT; ++j) cur->vc[j] = std::max(cur->vc[j], l.vc[j]); }
static void release(const void *p) {
    if (!on()) return;
    { Busy b; Lock &l = locks[p]; l.owner = nullptr; l.vc = cur->vc; } ++cur->vc[cur->id]; for (int i = 0; i < nfib; ++i) if (fibers[i]->lock == p) fibers[i]->lock = nullptr; maybeSwitch(); }
static int &nestDepth(const void *p) { Busy b; return locks[p].depth; }
static std::unordered_map<uint64_t, VC> syncs;
static void atomicOp(const void *p, size_t n, bool wr, bool rd, int order, const void *pc) {
    if (!on()) return;
    access(p, n, (wr ? 1 : 0) | 2, pc, wr ? "updates" : "reads");
    bool acq = rd && (order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST), rel = wr && (order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST);
    if (!acq && !rel) return;
    Busy b; VC &v = syncs[(uint64_t)p]; if (v.empty()) v.assign(MAXT, 0);
    if (acq) for (int j = 0; j < MAXT; ++j) cur->vc[j] = std::max(cur->vc[j], v[j]);
    if (rel) { for (int j = 0; j < MAXT; ++j) v[j] = std::max(v[j], cur->vc[j]); ++cur->vc[cur->id]; } }
// work sharing
static WS &myWS() { Busy b; Fiber *f = cur; if (f->team->ws.size() <= f->wsIdx) f->team->ws.resize(f->wsIdx + 1); return f->team->ws[f->wsIdx]; }
static bool nextChunk(WS &w, uint64_t *s, uint64_t *e, bool guided) {
    if (on()) maybeSwitch();
    auto less = [&](uint64_t a, uint64_t b) { return w.uns ? a < b : (int64_t)a < (int64_t)b; };
    uint64_t left = w.up ? (less(w.next, w.end) ? (w.end - w.next + w.incr - 1) / w.incr : 0) : (less(w.end, w.next) ? (w.next - w.end + (0 - w.incr) - 1) / (0 - w.incr) : 0);
    if (!left) return false;
    uint64_t k = std::min<uint64_t>(left, guided ? std::max<uint64_t>(w.chunk, left / (cur ? cur->team->n : 1)) : std::max<uint64_t>(1, w.chunk));
    *s = w.next; w.next += k * w.incr; *e = w.next; if (w.up ? less(w.end, *e) : less(*e, w.end)) *e = w.end; return true; }
static Fiber soloFiber;
struct Solo { bool mine; Solo() : mine(!cur) { if (mine) { soloFiber.team = &soloTeam; soloTeam.n = 1; soloTeam.ws.clear(); soloFiber.tid = 0; soloFiber.wsIdx = 0; } } };
}
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n); }
void GOMP_barrier() { barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { acquire(&locks); }
void GOMP_critical_end() { release(&locks); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start() { acquire(&syncs); }
void GOMP_atomic_end() { release(&syncs); }
void *GOMP_single_copy_start() { if (!cur) return nullptr; if (on()) maybeSwitch(); WS &w = myWS(); if (!w.taken) { w.taken = true; return nullptr; } barrier(); void *r = myWS().copy; ++cur->wsIdx; return r; }
void GOMP_single_copy_end(void *d) { if (!cur) return; myWS().copy = d; barrier(); ++cur->wsIdx; }
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() { if (!cur) return true; if (on()) maybeSwitch(); WS &w = myWS(); ++cur->wsIdx; if (w.taken) return false; w.taken = true; return true; }
#define LOOPS(NAME, G, CH) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, CH unsigned) { WS w; w.next = s; w.end = e; w.incr = i; w.up = i > 0; w.chunk = chunkOf(chunk); w.init = true; parallel(fn, d, n, &w); } \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, CH long *is, long *ie) { WS &w = myWS(); if (!w.init) { w.next = s; w.end = e; w.incr = i; w.up = i > 0; w.chunk = chunkOf(chunk); w.init = true; } return nextChunk(w, (uint64_t *)is, (uint64_t *)ie, G); } \
    bool GOMP_loop_##NAME##_next(long *is, long *ie) { return nextChunk(myWS(), (uint64_t *)is, (uint64_t *)ie, G); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, CH unsigned long long *is, unsigned long long *ie) { WS &w = myWS(); if (!w.init) { w.next = s; w.end = e; w.incr = i; w.up = up; w.uns = true; w.chunk = chunkOf(chunk); w.init = true; } return nextChunk(w, (uint64_t *)is, (uint64_t *)ie, G); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return nextChunk(myWS(), (uint64_t *)is, (uint64_t *)ie, G); }
#define WITH long chunk,
#define chunkOf(c) ((uint64_t)(c))
// an ordered loop: the first thread to ask does all of it
#define ORD(NAME, CH) \
    bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, CH long *is, long *ie) { WS &w = myWS(); if (!w.init) { w.next = s; w.end = e; w.incr = i; w.up = i > 0; w.chunk = ~0ull >> 1; w.init = true; } return nextChunk(w, (uint64_t *)is, (uint64_t *)ie, false); } \
    bool GOMP_loop_ordered_##NAME##_next(long *is, long *ie) { return nextChunk(myWS(), (uint64_t *)is, (uint64_t *)ie, false); } \
    bool GOMP_loop_ull_ordered_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, CH unsigned long long *is, unsigned long long *ie) { WS &w = myWS(); if (!w.init) { w.next = s; w.end = e; w.incr = i; w.up = up; w.uns = true; w.chunk = ~0ull >> 1; w.init = true; } return nextChunk(w, (uint64_t *)is, (uint64_t *)ie, false); } \
    bool GOMP_loop_ull_ordered_##NAME##_next(unsigned long long *is, unsigned long long *ie) { return nextChunk(myWS(), (uint64_t *)is, (uint64_t *)ie, false); }
ORD(static, WITH)
ORD(dynamic, WITH)
ORD(guided, WITH)
ORD(runtime, )
LOOPS(dynamic, false, WITH)
LOOPS(nonmonotonic_dynamic, false, WITH)
LOOPS(guided, true, WITH)
LOOPS(nonmonotonic_guided, true, WITH)
#undef chunkOf
#undef WITH
#define WITH
#define chunkOf(c) 1
LOOPS(runtime, false, WITH)
LOOPS(maybe_nonmonotonic_runtime, false, WITH)
LOOPS(nonmonotonic_runtime, false, WITH)
#undef chunkOf
#undef WITH
#define WITH long chunk,
#define chunkOf(c) ((uint64_t)(c))
LOOPS(static, false, WITH)
bool GOMP_loop_end_cancel() { ++cur->wsIdx; barrier(); return false; }
unsigned GOMP_sections_next() { WS &w = myWS(); if (on()) maybeSwitch(); return w.next < w.end ? (unsigned)++w.next : 0; }
unsigned GOMP_sections_start(unsigned n) { WS &w = myWS(); if (!w.init) { w.next = 0; w.end = n; w.init = true; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { WS w; w.next = 0; w.end = c; w.init = true; parallel(fn, d, n, &w); }
void GOMP_sections_end() { ++cur->wsIdx; barrier(); } void GOMP_sections_end_nowait() { ++cur->wsIdx; }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long n, long al, bool, unsigned, void **, int, void *) {    // run at once, which OpenMP allows
    if (!cpy) { fn(d); return; } char *m; { Busy b; m = (char *)__real_malloc(n + al); } char *q = (char *)(((uintptr_t)m + al - 1) / al * al); cpy(q, d); fn(q); { Busy b; __real_free(m); } }
void GOMP_taskloop(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long n, long al, unsigned, unsigned long, int, long s, long e, long) {      // one task
    char *m; { Busy b; m = (char *)__real_malloc(n + al); } char *q = (char *)(((uintptr_t)m + al - 1) / al * al); if (cpy) cpy(q, d); else __real_memcpy(q, d, n); ((long *)q)[0] = s; ((long *)q)[1] = e; fn(q); { Busy b; __real_free(m); } }
void GOMP_taskloop_ull(void (*fn)(void *), void *d, void (*cpy)(void *, void *), long n, long al, unsigned f, unsigned long k, int p, unsigned long long s, unsigned long long e, unsigned long long i) { GOMP_taskloop(fn, d, cpy, n, al, f, k, p, (long)s, (long)e, (long)i); }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
int omp_get_level() { return cur ? 1 : 0; } int omp_get_active_level() { return nfib > 1 && cur; } int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {} void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_team_size(int l) { return l == 1 && cur ? cur->team->n : 1; } int omp_get_ancestor_thread_num(int l) { return l == 1 && cur ? cur->tid : 0; } double omp_get_wtick() { return 1e-9; } int omp_in_final() { return 0; }
int omp_get_team_num() { return 0; } int omp_get_num_teams() { return 1; } int omp_get_cancellation() { return 0; } int omp_get_place_num() { return 0; } int omp_get_num_places() { return 1; }
void omp_set_schedule(omp_sched_t, int) {} void omp_get_schedule(omp_sched_t *k, int *c) { *k = omp_sched_dynamic; *c = 1; }
void GOMP_loop_end() { ++cur->wsIdx; barrier(); }
void GOMP_loop_end_nowait() { ++cur->wsIdx; }
int omp_get_thread_num() { return cur ? cur->tid : 0; }
int omp_get_num_threads() { return cur ? cur->team->n : 1; }
int omp_get_max_threads() { return g_threads; }
void omp_set_num_threads(int n) { g_threads = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
int omp_in_parallel() { return on(); }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
struct LK { int x; };
void omp_init_lock(omp_lock_t *) {} void omp_destroy_lock(omp_lock_t *) {} void omp_set_lock(omp_lock_t *l) { acquire(l); } void omp_unset_lock(omp_lock_t *l) { release(l); }
int omp_test_lock(omp_lock_t *l) { if (on()) { cur->prio = -(int64_t)++regionAcc; pick(); } if (on()) { auto i = locks.find(l); if (i != locks.end() && i->second.owner) return 0; } acquire(l); return 1; }
void omp_init_nest_lock(omp_nest_lock_t *) {} void omp_destroy_nest_lock(omp_nest_lock_t *) {}
void omp_set_nest_lock(omp_nest_lock_t *l) { acquire(l); ++nestDepth(l); } void omp_unset_nest_lock(omp_nest_lock_t *l) { if (--nestDepth(l) == 0) release(l); }
int omp_test_nest_lock(omp_nest_lock_t *l) { if (on()) { maybeSwitch(); auto i = locks.find(l); if (i != locks.end() && i->second.owner && i->second.owner != cur) return 0; } acquire(l); return ++nestDepth(l); }
// locks of other kinds the program may use: on simulated threads the real ones would block the only thread there is
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return __real_pthread_mutex_lock(m); acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!on()) return __real_pthread_mutex_unlock(m); release(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (!on()) return __real_pthread_mutex_trylock(m); maybeSwitch(); auto i = locks.find(m); if (i != locks.end() && i->second.owner) return 16; acquire(m); return 0; }
int __wrap_sched_yield() { if (on()) { cur->prio = -(int64_t)++regionAcc; pick(); } return 0; }
// initialisation of function-local statics
int __wrap___cxa_guard_acquire(char *g) { acquire(g); if (*g) { release(g); return 0; } return 1; }
void __wrap___cxa_guard_release(char *g) { atomicOp(g, 1, true, true, __ATOMIC_SEQ_CST, PC); *g = 1; release(g); }
void __wrap___cxa_guard_abort(char *g) { release(g); }


void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *p) { access(p, N, 0, PC, "reads"); } void __tsan_write##N(void *p) { access(p, N, 1, PC, "writes"); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, 0, PC, "reads"); } void __tsan_unaligned_write##N(void *p) { access(p, N, 1, PC, "writes"); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, 0, PC, "reads"); } void __tsan_volatile_write##N(void *p) { access(p, N, 1, PC, "writes"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, 0, PC, "reads"); }
void __tsan_write_range(void *p, size_t n) { access(p, n, 1, PC, "writes"); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, 1, PC, "writes"); }
void __tsan_vptr_read(void **p) { access(p, 8, 0, PC, "reads"); }
#define AT(B, T) \
    T __tsan_atomic##B##_load(const volatile T *p, int o) { atomicOp((void *)p, sizeof(T), false, true, o, PC); return *p; } \
    void __tsan_atomic##B##_store(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, false, o, PC); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = v; return r; } \
    T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = r + v; return r; } \
    T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = r - v; return r; } \
    T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = r & v; return r; } \
    T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = r | v; return r; } \
    T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = r ^ v; return r; } \
    T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int o) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; *p = ~(r & v); return r; } \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int) { atomicOp((void *)p, sizeof(T), true, true, o, PC); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int) { atomicOp((void *)p, sizeof(T), true, true, o, PC); if (*p == *e && !(on() && S.gap && rng.below(8) == 0)) { *p = v; return true; } *e = *p; return false; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int o, int) { atomicOp((void *)p, sizeof(T), true, true, o, PC); T r = *p; if (r == e) *p = v; return r; }
typedef unsigned char U8; typedef unsigned short U16; typedef unsigned int U32; typedef unsigned long U64;
AT(8, U8) AT(16, U16) AT(32, U32) AT(64, U64)
void __tsan_atomic_thread_fence(int) { if (!on()) return; maybeSwitch(); Busy b; static VC all; if (all.empty()) all.assign(MAXT, 0); for (int j = 0; j < MAXT; ++j) all[j] = cur->vc[j] = std::max(cur->vc[j], all[j]); ++cur->vc[cur->id]; }     // taken to order this thread after every earlier fence void __tsan_atomic_signal_fence(int) {}

void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) forget(p, malloc_usable_size(p)); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) forget(p, malloc_usable_size(p)); return p; }
void __wrap_free(void *p) { if (p && on()) access(p, malloc_usable_size(p), 1, PC, "frees"); __real_free(p); }
void *__wrap_realloc(void *q, size_t n) { if (q && on()) access(q, malloc_usable_size(q), 1, PC, "reallocates"); void *p = __real_realloc(q, n); if (p) forget(p, malloc_usable_size(p)); return p; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (p) forget(p, malloc_usable_size(p)); return p; }
int __wrap_posix_memalign(void **q, size_t a, size_t n) { int r = __real_posix_memalign(q, a, n); if (!r) forget(*q, malloc_usable_size(*q)); return r; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, 0, PC, "copies from"); access(d, n, 1, PC, "copies to"); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, 0, PC, "copies from"); access(d, n, 1, PC, "copies to"); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, 1, PC, "sets"); return __real_memset(d, c, n); }
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static inline void drop(void *p, const void *pc) { if (p && on()) access(p, malloc_usable_size(p), 1, pc, "frees"); __real_free(p); }
void operator delete(void *p) noexcept { drop(p, PC); }
void operator delete[](void *p) noexcept { drop(p, PC); }
void operator delete(void *p, size_t) noexcept { drop(p, PC); }
void operator delete[](void *p, size_t) noexcept { drop(p, PC); }

// every case of a harness built against this runtime: a schedule drawn from the tape, and no race
namespace sim {
Schedule draw(pbt::Src &t) { Schedule s; switch (t.weighted({2, 1, 2, 2, 3})) { case 0: break; case 1: s.order = 1; break; case 2: s.order = 2; s.seed = t.draw(0); break;
        case 3: s.order = 2; s.changes = 1 + t.draw(5); s.seed = t.draw(0); break; default: { static const uint64_t g[] = {100, 20, 3, 1, 1000}; s.order = 2; s.gap = g[t.draw(5)]; s.seed = t.draw(0); } }
    return s; }
std::string str(const Schedule &s) { return pbt::strf("schedule: %s order%s%s", s.order == 0 ? "ascending" : s.order == 1 ? "descending" : "random", s.gap ? pbt::strf(", preempting every %llu accesses", (unsigned long long)s.gap).c_str() : s.changes ? pbt::strf(", %d preemptions", s.changes).c_str() : "", s.granted ? pbt::strf(", %d threads granted", s.granted).c_str() : ""); }
}
