// Runs every case of a harness under a drawn schedule of the simulated OpenMP runtime.
#include "simomp.h"
namespace {
void before(pbt::Tape &t, pbt::Ctx &ctx) { auto s = sim::draw(t); ctx.note("[" + sim::str(s) + "] "); sim::begin(s); }
void after(pbt::Tape &, pbt::Ctx &ctx) { std::string r = sim::end(); auto &st = sim::stats(); ctx.nontrivial = st.teams > 0 && st.accesses > 0;
    ctx.label(st.teams ? st.switches > 2 * st.teams ? "interleaved" : "one thread after the other" : "no team"); if (!r.empty()) pbt::fail("%s", r.c_str()); }
struct Init { Init() { pbt::g_before = before; pbt::g_after = after; } } init;
}
