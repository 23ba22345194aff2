// Internal interface between engine.cpp (the simulated world) and main.cpp (profiles, search, replay).
#pragma once
#include "engine.h"
#include "model.h"
#include <functional>
#include <map>

namespace sim {

extern std::vector<const GrammarDef*>& registry();
extern std::vector<Grammar> grammars;

struct Finding { int cls; int plan; int op; bool nested; std::string detail; };

// Counters, kept in memory shared with the parent process
enum Counter { C_PLANS, C_OPS, C_NESTED, C_TICKS, C_SWITCHES, C_MULTI, C_ALLOCS, C_CALLBACKS, C_COMPARES, C_VALOPS, C_EXC, C_OK, C_FAIL, C_HELD, C_DELIV,
	C_CONF0, C_FIRED0 = C_CONF0 + 8, C_EV0 = C_FIRED0 + 8, C_PROBE0 = C_EV0 + 16, C_N = C_PROBE0 + 24 };
enum Probe { PR_FAULT_IN_VECTOR_GROWTH, PR_BACKTRACK, PR_LONGREP, PR_DEEP, PR_EMPTY_IN, PR_TWO_INFLIGHT, PR_EXC_CONCURRENT, PR_RETRY_OK, PR_NEST_THROW, PR_NEST_SAME, PR_NEST_OVERLAP,
	PR_FAIL_AFTER_CB, PR_GUARD_END, PR_GUARD_BEGIN, PR_NEIGHBOUR, PR_HELD_ACROSS_EXC, PR_CSTR, PR_NULLREP, PR_COUNT };

struct PlanStat { uint64_t hash; uint64_t sched_hash; uint32_t nontrivial; uint32_t multi; };

struct Shared
{
	uint64_t cnt[C_N];
	uint64_t run_hash;            // of the whole episode
	int nplans;                   // finished (all episodes of this worker)
	int ep_plans;                 // finished in this episode
	volatile uint64_t beat;        // steps up whenever a call starts or a plan ends
	volatile int calling;          // library code is running
	int cur_plan;
	int cur_op, cur_nested;       // what was running last
	PlanStat stat[256];
	uint32_t nfind;
	uint32_t textlen;
	char text[1 << 18];           // findings, serialised
	uint32_t planlen;
	char plans[6 << 20];          // the plans of this episode, as text, in order
	uint8_t cov[1 << 22];         // code locations of library code reached
};
extern Shared* shared;

void world_init();                               // once, before forking
void new_shared();                               // once per worker
// What the latest plan's operations used, to aim faults
struct OpCount { int id; uint64_t nalloc, ncb, ncmp, nval, ticks; bool ok, threw; };
extern std::vector<OpCount> counts;
void run_episode_here(const std::function<bool(Plan&)>& next, bool verbose);   // in a child
std::vector<Finding> read_findings();

} // namespace sim
