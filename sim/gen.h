// Workload generator: bounded, deterministic, address-independent wrench programs.
#pragma once
#include "host.h"

struct GenCfg
{
	bool yields, floats, strings, structs, hashes, containers, strlib, gotos, switches, recursion, faults, foreachs, hostcalls, bigHash, msgs, orphans;
	int maxCost;      // bound on executed statements
	int topStmts;
	int nFuncs;
	int nCalls;
	int yieldPct;     // chance that a generated statement slot becomes a yield
	int faultPct;     // chance that a generated statement slot becomes a fault
	GenCfg() : yields(false), floats(true), strings(true), structs(true), hashes(true), containers(true), strlib(true), gotos(true), switches(true), recursion(true), faults(false), foreachs(true), hostcalls(true), bigHash(true), msgs(false), orphans(false), maxCost(2500), topStmts(8), nFuncs(4), nCalls(3), yieldPct(0), faultPct(0) {}
};
GenCfg swarmCfg();            // random subset of features and sizes
Plan genPlan(GenCfg const& cfg);
