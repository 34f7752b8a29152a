// Supervisor of the generated-case search: forked workers, crash/hang capture, shrinking, replay.
#include "pbt.h"
#include <cstdarg>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {
const char *g_rule __attribute__((weak)) = "";
double g_case_timeout __attribute__((weak)) = 30;

std::string strf(const char *fmt, ...) {
    char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); return buf; }
PropFn g_before = nullptr, g_after = nullptr;
void fail(const char *fmt, ...) {
    char buf[8192]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap); throw Failure{buf}; }

struct Entry { const char *name; PropFn f; int weight; };
static std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
Reg::Reg(const char *name, PropFn f, int weight) { entries().push_back({name, f, weight}); }

const std::vector<int64_t> &dictionary() {
    static std::vector<int64_t> d; static bool init = false;
    if (!init) { init = true;
        if (const char *e = getenv("PBT_DICT")) { const char *p = e; while (*p) { char *q; long long v = strtoll(p, &q, 10);
            if (q == p) break; d.push_back(v); p = q; while (*p == ',' || *p == ' ') ++p; } }
        if (d.empty()) d = {1, 2, 4, 8, 16, 32, 64}; }
    return d; }

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

enum { ST_IDLE = 0, ST_RUN = 1, ST_FAIL = 2, ST_DONE = 3 };
struct Slot {
    volatile int state; volatile int test; volatile uint64_t caseIdx; volatile double start;
    char msg[8192]; TapeBuf tape;
};

struct Outcome { enum K { OK, FAIL, CRASH, HANG, KILLED } k; std::string msg; };

static int g_tier = 0;
static std::string g_tmp;

static Slot *newSlot() {
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Slot *)p; }

static std::string slurp(const std::string &f, size_t lim) {
    std::string s; FILE *fp = fopen(f.c_str(), "r"); if (!fp) return s; char b[4096]; size_t n;
    while (s.size() < lim && (n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp); if (s.size() > lim) s.resize(lim); return s; }

static int runOne(int test, Tape &t, Ctx &c, Slot *s) {  // 0 ok, 1 fail, 2 discard
    try { if (g_before) g_before(t, c); entries()[test].f(t, c); if (g_after) g_after(t, c); return 0; }
    catch (Failure &f) { snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str()); s->state = ST_FAIL; return 1; }
    catch (Discard &) { return 2; }
    catch (std::exception &e) { snprintf(s->msg, sizeof s->msg, "unexpected exception: %s", e.what()); s->state = ST_FAIL; return 1; }
}

// a child ends with its supervisor, and a runaway allocation ends the child instead of the machine
static void childLimits() { prctl(PR_SET_PDEATHSIG, SIGKILL);
#ifndef __SANITIZE_ADDRESS__
    rlimit rl{12ull << 30, 12ull << 30}; setrlimit(RLIMIT_DATA, &rl);
#endif
}
static void quietStdout() { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); close(fd); }

// run one tape in a forked child
static Outcome runTape(Slot *s, int test, const std::vector<uint64_t> &tape, bool verbose, double timeout) {
    s->state = ST_RUN; s->msg[0] = 0;
    std::string errf = g_tmp + "/err." + std::to_string(getpid());
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        setpgid(0, 0); childLimits();
        quietStdout();
        if (!verbose) { int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); }
        Tape t(&s->tape, &tape); Ctx c; c.tier = g_tier; c.verbose = verbose;
        int r = runOne(test, t, c, s);
        fflush(stderr);
        _exit(r == 1 ? 3 : 0);
    }
    double t0 = now(); int st; int spins = 0;
    while (true) {
        pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p) break;
        if (q < 0 && errno != EINTR) { return {Outcome::KILLED, "waitpid"}; }
        if (now() - t0 > timeout) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0);
            return {Outcome::HANG, strf("no result after %.0f s", timeout)}; }
        usleep(spins++ < 40 ? 250 : 3000);
    }
    if (WIFEXITED(st)) {
        if (WEXITSTATUS(st) == 0) return {Outcome::OK, ""};
        if (WEXITSTATUS(st) == 3 && s->state == ST_FAIL) return {Outcome::FAIL, s->msg};
        std::string e = verbose ? "" : slurp(errf, 3000);
        return {Outcome::CRASH, strf("exit status %d ", WEXITSTATUS(st)) + e};
    }
    int sig = WTERMSIG(st);
    if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT) return {Outcome::KILLED, "killed"};
    return {Outcome::CRASH, strf("signal %d (%s) ", sig, strsignal(sig)) + (verbose ? "" : slurp(errf, 3000))};
}

static bool bad(const Outcome &o) { return o.k == Outcome::FAIL || o.k == Outcome::CRASH || o.k == Outcome::HANG; }

static void writeReplay(const std::string &path, int test, const std::vector<uint64_t> &tape, const std::string &msg) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); return; }
    fprintf(f, "test %s\n", entries()[test].name);
    if (const char *h = getenv("PBT_UNIT")) fprintf(f, "unit %s\n", h);
    std::string m = msg; for (char &c : m) if (c == '\n') c = '|';
    fprintf(f, "message %s\ntape %zu\n", m.substr(0, 3000).c_str(), tape.size());
    for (uint64_t v : tape) fprintf(f, "%llu\n", (unsigned long long)v);
    fclose(f); }

static bool readReplay(const std::string &path, int &test, std::vector<uint64_t> &tape) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) return false; static char line[1 << 16]; test = -1;
    while (fgets(line, sizeof line, f)) {
        char nm[256]; size_t n;
        if (sscanf(line, "test %255s", nm) == 1) { for (size_t i = 0; i < entries().size(); ++i) if (!strcmp(entries()[i].name, nm)) test = i; }
        else if (sscanf(line, "tape %zu", &n) == 1) { unsigned long long v; while (n-- && fscanf(f, "%llu", &v) == 1) tape.push_back(v); break; }
    }
    fclose(f); return test >= 0; }

struct Shrinker {
    Slot *s; int test; std::vector<uint64_t> best; std::string msg; double deadline; double timeout; int runs = 0; int reps = 1;
    bool attempt(const std::vector<uint64_t> &t) {
        if (now() > deadline) return false;
        for (int i = 0; i < reps; ++i) {
            ++runs; Outcome o = runTape(s, test, t, false, timeout);
            if (bad(o) && !(o.k == Outcome::HANG && !hangOk)) { std::vector<uint64_t> used(s->tape.v, s->tape.v + s->tape.len);
                best = used.size() <= t.size() ? used : t;
                msg = o.msg; return true; }
            if (now() > deadline) return false; }
        return false; }
    bool hangOk = false;
    void run() {
        bool progress = true;
        while (progress && now() < deadline) {
            progress = false;
            for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {      // delete blocks
                size_t i = 0;
                while (i + k <= best.size() && now() < deadline) {
                    std::vector<uint64_t> t(best); t.erase(t.begin() + i, t.begin() + i + k);
                    size_t before = best.size();
                    if (attempt(t) && best.size() < before) progress = true; else i += k;
                }
                if (k == 1) break;
            }
            for (size_t k = 16; k >= 1; k /= 4) {     // zero blocks
                for (size_t i = 0; i + k <= best.size() && now() < deadline; i += k) {
                    bool nz = false; for (size_t j = i; j < i + k; ++j) nz |= best[j] != 0;
                    if (!nz) continue;
                    std::vector<uint64_t> t(best); std::fill(t.begin() + i, t.begin() + i + k, 0);
                    if (attempt(t)) progress = true;
                }
                if (k == 1) break;
            }
            for (size_t i = 0; i < best.size() && now() < deadline; ++i) {     // lower values
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo && now() < deadline) {
                    uint64_t mid = lo + (best[i] - lo) / 2;
                    std::vector<uint64_t> t(best); t[i] = mid; uint64_t old = best[i];
                    if (attempt(t) && i < best.size() && best[i] < old) progress = true; else lo = mid + 1;
                }
            }
        } }
};

struct Stats { uint64_t evals = 0, nontriv = 0, discards = 0; std::map<std::string, uint64_t> labels; std::map<std::string, uint64_t> perTest;
    std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; };

static std::string oneLine(std::string s) { for (char &c : s) if (c == '\n' || c == '\t') c = ' '; return s; }

static void dumpStats(const Stats &st, const std::string &f) {
    FILE *fp = fopen((f + ".tmp").c_str(), "w"); if (!fp) return;
    fprintf(fp, "E\t%llu\nN\t%llu\nD\t%llu\n", (unsigned long long)st.evals, (unsigned long long)st.nontriv, (unsigned long long)st.discards);
    for (auto &l : st.labels) fprintf(fp, "L\t%s\t%llu\n", l.first.c_str(), (unsigned long long)l.second);
    for (auto &l : st.perTest) fprintf(fp, "T\t%s\t%llu\n", l.first.c_str(), (unsigned long long)l.second);
    for (auto h : st.hashes) fprintf(fp, "H\t%llu\n", (unsigned long long)h);
    for (auto &s : st.samples) fprintf(fp, "S\t%s\n", oneLine(s).c_str());
    fclose(fp); rename((f + ".tmp").c_str(), f.c_str()); }

static void mergeStats(Stats &st, const std::string &f) {
    FILE *fp = fopen(f.c_str(), "r"); if (!fp) return; char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, fp)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        if (n < 2) continue;
        char *p = line + 2;
        if (line[0] == 'E') st.evals += strtoull(p, 0, 10);
        else if (line[0] == 'N') st.nontriv += strtoull(p, 0, 10);
        else if (line[0] == 'D') st.discards += strtoull(p, 0, 10);
        else if (line[0] == 'H') st.hashes.insert(strtoull(p, 0, 10));
        else if (line[0] == 'S') { if (st.samples.size() < 12) st.samples.push_back(p); }
        else if (line[0] == 'L' || line[0] == 'T') { char *q = strrchr(p, '\t'); if (!q) continue; *q = 0; (line[0] == 'L' ? st.labels : st.perTest)[p] += strtoull(q + 1, 0, 10); }
    }
    free(line); fclose(fp); }

static std::string jsonStr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main_impl(int argc, char **argv) {
    uint64_t seed = 1, cases = 1000; double budget = 20; int workers = 8; std::string out, replay, replayOut = "replay.tape", only; int repTries = 1; bool fixed = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--time") budget = atof(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--stats") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replay-out") replayOut = nx();
        else if (a == "--only") only = nx(); else if (a == "--tier") g_tier = atoi(nx().c_str()); else if (a == "--tmp") g_tmp = nx();
        else if (a == "--repeat") repTries = atoi(nx().c_str()); else if (a == "--list") { for (auto &e : entries()) printf("%s %d\n", e.name, e.weight); return 0; }
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
    (void)fixed;
    bool ownTmp = false;
    if (g_tmp.empty()) { char b[] = "/tmp/pbtXXXXXX"; g_tmp = mkdtemp(b); ownTmp = true; }
    auto cleanup = [&]() { if (ownTmp) { std::string c = "rm -rf " + g_tmp; if (system(c.c_str())) {} } };
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!replay.empty()) {
        int test; std::vector<uint64_t> tape; if (!readReplay(replay, test, tape)) { fprintf(stderr, "cannot read replay\n"); return 2; }
        Slot *s = newSlot(); Outcome o{Outcome::OK, ""};
        for (int i = 0; i < repTries && !bad(o); ++i) o = runTape(s, test, tape, i == 0, g_case_timeout);
        cleanup();
        if (bad(o)) { printf("FAIL test=%s %s\n", entries()[test].name, o.msg.c_str()); return 1; }
        printf("PASS test=%s\n", entries()[test].name); return 0;
    }
    // weighted schedule of tests
    std::vector<int> sched; { bool more = true; for (int k = 0; more; ++k) { more = false; for (size_t i = 0; i < entries().size(); ++i) {
        if (!only.empty() && only != entries()[i].name) continue; if (k < entries()[i].weight) { sched.push_back(i); more = true; } } } }
    if (sched.empty()) { fprintf(stderr, "no tests\n"); return 2; }
    // deterministic shuffle, so that a time-capped run still samples every test
    { Rng r(12345); for (size_t i = sched.size(); i > 1; --i) std::swap(sched[i - 1], sched[r.below(i)]); }
    double t0 = now(), deadline = t0 + budget;
    std::vector<Slot *> slots(workers); std::vector<pid_t> pids(workers); std::vector<std::string> statf(workers); std::vector<bool> alive(workers, true);
    for (int w = 0; w < workers; ++w) { slots[w] = newSlot(); statf[w] = g_tmp + "/stat." + std::to_string(getpid()) + "." + std::to_string(w); }
    std::vector<uint64_t> nextCase(workers); for (int w = 0; w < workers; ++w) nextCase[w] = w;
    int inconclusive = 0;
    auto spawn = [&](int w) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork(); if (p < 0) { perror("fork"); exit(2); }
        if (p) { pids[w] = p; return; }
        setpgid(0, 0); childLimits();
        quietStdout(); std::string errf = g_tmp + "/werr." + std::to_string(w); int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
        Slot *s = slots[w]; Stats st; double lastDump = now(); std::map<int, int> samplesPer;
        for (uint64_t i = nextCase[w]; i < cases && now() < deadline; i += workers) {
            int test = sched[i % sched.size()];
            s->caseIdx = i; s->test = test; s->start = now(); s->state = ST_RUN;
            Tape t(&s->tape, mix64(seed * 0x100000001B3ull + i)); Ctx c; c.tier = g_tier;
            int r = runOne(test, t, c, s);
            if (r == 1) { dumpStats(st, statf[w]); fflush(stderr); _exit(3); }
            if (r == 2) { st.discards++; s->state = ST_IDLE; continue; }
            st.evals++; st.perTest[entries()[test].name]++;
            for (auto &l : c.labels) st.labels[l]++;
            if (c.nontrivial) { st.nontriv++; uint64_t h = mix64(test); for (size_t k = 0; k < s->tape.len; ++k) h = mix64(h ^ s->tape.v[k]); st.hashes.insert(h);
                if (st.samples.size() < 4 && c.desc.size() < 700 && samplesPer[test]++ < 1) st.samples.push_back(std::string(entries()[test].name) + ": " + c.desc); }
            s->state = ST_IDLE;
            if (ftell(stderr) > 0) { /* keep stderr small */ }
            if (now() - lastDump > 5) { dumpStats(st, statf[w]); lastDump = now(); if (lseek(2, 0, SEEK_CUR) > (1 << 20)) { if (ftruncate(2, 0)) {} lseek(2, 0, SEEK_SET); } }
        }
        dumpStats(st, statf[w]); s->state = ST_DONE; _exit(0);
    };
    Stats total;
    for (int w = 0; w < workers; ++w) spawn(w);
    int nalive = workers; bool violation = false; std::string finalMsg;
    int vTest = -1; std::vector<uint64_t> vTape; Outcome vOut{Outcome::OK, ""}; uint64_t vCase = 0;
    auto killAll = [&]() { for (int w = 0; w < workers; ++w) if (alive[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); alive[w] = false; } };
    while (nalive > 0 && !violation) {
        bool any = false;
        for (int w = 0; w < workers && !violation; ++w) { if (!alive[w]) continue;
            int st; pid_t q = waitpid(pids[w], &st, WNOHANG); Slot *s = slots[w]; Outcome o{Outcome::OK, ""};
            if (q == 0) { if (s->state == ST_RUN && now() - s->start > g_case_timeout) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); o = {Outcome::HANG, strf("no result after %.0f s", g_case_timeout)}; } else continue; }
            else { any = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { alive[w] = false; --nalive; mergeStats(total, statf[w]); continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && s->state == ST_FAIL) o = {Outcome::FAIL, s->msg};
                else if (WIFEXITED(st)) o = {Outcome::CRASH, strf("exit status %d ", WEXITSTATUS(st)) + slurp(g_tmp + "/werr." + std::to_string(w), 3000)};
                else { int sig = WTERMSIG(st); if (sig == SIGKILL || sig == SIGTERM || sig == SIGINT) o = {Outcome::KILLED, "killed from outside (out of memory?)"};
                    else o = {Outcome::CRASH, strf("signal %d (%s) ", sig, strsignal(sig)) + slurp(g_tmp + "/werr." + std::to_string(w), 3000)}; } }
            alive[w] = false; --nalive; mergeStats(total, statf[w]); unlink(statf[w].c_str());
            std::vector<uint64_t> tape(s->tape.v, s->tape.v + s->tape.len); int test = s->test; uint64_t ci = s->caseIdx;
            if (o.k == Outcome::KILLED) { inconclusive++; fprintf(stderr, "case %llu of %s: %s\n", (unsigned long long)ci, entries()[test].name, o.msg.c_str()); }
            else {
                // confirm
                fprintf(stderr, "case %llu of %s failed: %s\nconfirming\n", (unsigned long long)ci, entries()[test].name, o.msg.substr(0, 2000).c_str());
                killAll(); nalive = 0; for (int x = 0; x < workers; ++x) mergeStats(total, statf[x]);
                Slot *cs = newSlot(); int tries = o.k == Outcome::HANG ? 2 : 60, hits = 0; Outcome last = o; double c0 = now();
                std::vector<uint64_t> full = tape;
                for (int k = 0; k < tries && (now() - c0 < 150); ++k) { Outcome r = runTape(cs, test, full, false, o.k == Outcome::HANG ? 2 * g_case_timeout : g_case_timeout); if (bad(r)) { hits++; last = r; if (hits >= 3 || o.k == Outcome::HANG) break; } else if (o.k == Outcome::HANG) break; if (k == 5 && hits == 0 && o.k != Outcome::FAIL && now() - c0 > 60) break; }
                fprintf(stderr, "reproduced %d times\n", hits);
                if (o.k == Outcome::HANG && hits == 0) { inconclusive++; fprintf(stderr, "slow case, not a hang: inconclusive\n"); }
                else { violation = true; vTest = test; vTape = full; vOut = last; vCase = ci;
                    if (hits > 0) { Shrinker sh; sh.s = cs; sh.test = test; sh.best = full; sh.msg = last.msg; sh.deadline = now() + (g_tier ? 120 : 45); sh.timeout = o.k == Outcome::HANG ? std::min(g_case_timeout, 10.0) : g_case_timeout; sh.hangOk = o.k == Outcome::HANG;
                        if (hits < 3) sh.reps = 10;
                        sh.run(); vTape = sh.best; vOut.msg = sh.msg; fprintf(stderr, "shrunk %zu -> %zu draws in %d runs\n", full.size(), vTape.size(), sh.runs); }
                    else vOut.msg += " [not reproduced in a fresh process]"; }
            } }
        if (!any) usleep(20000);
    }
    (void)finalMsg; (void)vCase;
    for (int w = 0; w < workers; ++w) unlink(statf[w].c_str());
    if (violation) { writeReplay(replayOut, vTest, vTape, vOut.msg);
        Slot *s = newSlot(); fprintf(stderr, "--- minimal case, test %s: %s\n", entries()[vTest].name, vOut.msg.c_str()); runTape(s, vTest, vTape, true, g_case_timeout);
        printf("FAIL test=%s replay=%s %s\n", entries()[vTest].name, replayOut.c_str(), oneLine(vOut.msg).c_str()); }
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (f) {
        fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"discarded\": %llu, \"inconclusive\": %d, \"wall_s\": %.2f, \"violation\": %s,\n \"rule\": %s,\n \"labels\": {",
            (unsigned long long)total.evals, (unsigned long long)total.nontriv, total.hashes.size(), (unsigned long long)total.discards, inconclusive, now() - t0, violation ? "true" : "false", jsonStr(g_rule).c_str());
        bool first = true; for (auto &l : total.labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(l.first).c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\n \"per_test\": {"); first = true; for (auto &l : total.perTest) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jsonStr(l.first).c_str(), (unsigned long long)l.second); first = false; }
        fprintf(f, "},\n \"samples\": ["); first = true; for (auto &l : total.samples) { fprintf(f, "%s%s", first ? "" : ", ", jsonStr(l).c_str()); first = false; }
        fprintf(f, "]}\n"); fclose(f); } }
    cleanup();
    return violation ? 1 : 0;
}
} // namespace pbt

int main(int argc, char **argv) { return pbt::main_impl(argc, argv); }
