// Shared pieces of the property scenarios: what the environment may do at the points where the
// code under test gives the simulator control.
#pragma once
#include "gen.h"
#include "io.h"

// what the asynchronous world does at allocation points: another thread asks for a yield
// (wr_forceYield), the memory situation makes a collection happen here, or memory runs out
struct WorldHook : AllocHook
{
	WRState* w; uint32_t forcePct, gcPct; bool jitterGc; int forced;
	int64_t failAt;          // allocation (counted from arming) that fails; -1 none
	bool failAfter;          // and every later one
	int64_t n; int failed; size_t logAtFail;
	WorldHook() : w(0), forcePct(0), gcPct(0), jitterGc(false), forced(0), failAt(-1), failAfter(false), n(0), failed(0), logAtFail(0) {}
	bool onAlloc(size_t bytes);
};
extern WorldHook g_world;
void worldArm(WRState* w);                // install g_world as the allocation hook, fresh
void worldOff();

uint32_t budget();                        // a seeded slice budget; 0 is unlimited
void setSlice(WRState* w, uint32_t q);    // no-op in builds without time slices
extern uint32_t g_cbForcePct;
void cbForce(WRContext* c, const char*);

// plan + its uninterrupted history
struct Work { Plan p; Bytes im; Baseline b; bool ok; Work() : ok(false) {} };
void makeWork(Work& k, GenCfg const& cfg, int stack = 600);
// callback lines only (what the script itself made happen)
std::vector<std::string> callbackLines(std::vector<std::string> const& v);
// every fault marker is directly followed by its error; returns the number of faults seen
int checkFaultMarkers(std::vector<std::string> const& log, const char* who);
// a script that rebuilds its argument types etc. with defaults
extern bool g_silentYield;                // hy(): no history line, default reply
