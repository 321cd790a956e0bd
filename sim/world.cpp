#include "world.h"

WorldHook g_world;
uint32_t g_cbForcePct = 0;

extern "C" __attribute__((noinline)) void simFailPoint() { asm volatile(""); }   // where a debugger stops
bool WorldHook::onAlloc(size_t)
{
	if (!w) return true;
	int64_t k = n++;
	if (failAt >= 0 && !g_hostSide && (k == failAt || (failAfter && k > failAt))) { simFailPoint(); if (!failed++) logAtFail = g_cur ? g_cur->log.size() : 0; sched("allocation %lld fails", (long long)k); COUNT("fault.allocation_fails"); return false; }
#ifdef WRENCH_TIME_SLICES
	if (forcePct && ch(100) >= 100 - forcePct) { wr_forceYield(w); ++forced; sched("async force-yield at alloc %llu", (unsigned long long)g_al.serial); COUNT("sched.async_force_yield_at_alloc"); }
#endif
	if (jitterGc)
	{
		bool now = ch(100) >= 100 - gcPct;
		wr_setAllocatedMemoryGCHint(w, now ? 0 : 0x7fffffff);
		if (now) { sched("collect after alloc %llu", (unsigned long long)g_al.serial); COUNT("sched.collection_forced"); }
	}
	return true;
}
void worldArm(WRState* w) { g_slice = 0; g_world = WorldHook(); g_world.w = w; g_al.hook = &g_world; }
void worldOff() { g_al.hook = 0; g_world.w = 0; g_callbackHook = 0; }

uint32_t budget()
{
	switch (ch(6))
	{
		case 0: return 0;
		case 1: return 1;
		case 2: return 1 + ch(3);
		case 3: return 1 + ch(10);
		case 4: return 1 + ch(60);
		default: return 1 + ch(500);
	}
}
void setSlice(WRState* w, uint32_t q)
{
#ifdef WRENCH_TIME_SLICES
	wr_setInstructionsPerSlice(w, (int)q); g_slice = q;
	if (q) sched("slice %u", q);
#endif
}
void cbForce(WRContext* c, const char*)
{
#ifdef WRENCH_TIME_SLICES
	if (g_cbForcePct && ch(100) >= 100 - g_cbForcePct) { wr_forceYield(c->w); sched("async force-yield in callback"); COUNT("sched.async_force_yield_in_callback"); }
#endif
}
void makeWork(Work& k, GenCfg const& cfg, int stack)
{
	k.p = genPlan(cfg);
	noteBlock("script", k.p.render(true));
	k.b = runBaseline(k.p, stack);
	k.ok = k.b.ok && compileTo(k.p.render(true), k.im);
	if (k.ok) noteBlock("uninterrupted history", joinLog(k.b.log));
}
std::vector<std::string> callbackLines(std::vector<std::string> const& v)
{
	std::vector<std::string> r;
	for (size_t i = 0; i < v.size(); ++i) if (v[i].size() > 1 && v[i][1] == '(' && strchr("LVSI", v[i][0])) r.push_back(v[i]);
	return r;
}
int checkFaultMarkers(std::vector<std::string> const& log, const char* who)
{
	int n = 0;
	for (size_t i = 0; i < log.size(); ++i)
	{
		if (log[i] == "L(\"AFTERFAULT\")") violate("ran-past-fault", "%s: statements after the fault were executed", who);
		int code;
		if (sscanf(log[i].c_str(), "L(\"FAULT\" %d)", &code) == 1)
		{
			++n;
			if (i + 1 >= log.size()) continue; // cut here
			int st, e;
			if (sscanf(log[i + 1].c_str(), "E%d err=%d", &st, &e) != 2) violate("ran-past-fault", "%s: the fault %d was followed by <%s>", who, code, log[i + 1].substr(0, 200).c_str());
			if (e != code) violate("wrong-error", "%s: fault %d reported as error %d", who, code, e);
		}
	}
	return n;
}
