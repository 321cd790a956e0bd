// Scheduling properties: slicing, isolation, collection timing, preemption, yielding, the task
// scheduler, fault containment.
#include "world.h"

// ---------------------------------------------------------------- C01
void run_C01()
{
	GenCfg cfg = swarmCfg();
	cfg.yields = ch(3) == 0;
	cfg.faults = ch(4) == 0; cfg.faultPct = 4;
	Work k; makeWork(k, cfg);
	if (!k.ok) return;
	g_phase = "sliced";
	g_al.fill = 0x5c;
	WRState* w = newState(600);
	wr_setAllocatedMemoryGCHint(w, ch(2) ? 0x7fffffff : 4000);
	worldArm(w);
	g_world.forcePct = ch(2) ? 0 : ch(30);
	g_cbForcePct = ch(2) ? 0 : ch(40);
	g_callbackHook = cbForce;
	Script s;
	if (!scriptLoad(s, w, &k.p, &k.im, "sliced")) violate("load", "a valid image is refused");
	bool fixed = ch(2); uint32_t fb = budget();
	uint32_t guard = 0;
	while (!s.done())
	{
		uint32_t q = fixed ? fb : budget();
		if (++guard > 60000) q = 0;
		setSlice(w, q);
		scriptStep(s, chance(1, 5) ? 1 + ch(6) : 0);
		if (ch(16) == 15) probePure(s);
	}
	for (int i = 0; i < s.forcedYields; ++i) COUNT("sched.forced_yields");
	checkSame("sliced-differs", "sliced run", k.b.log, s.log);
	worldOff();
	wr_destroyState(w);
}

// ---------------------------------------------------------------- C02 (and C12: the same world with faults)
struct Crowd
{
	WRState* w;
	std::vector<Work*> works;
	std::vector<Script*> all, live;
	std::vector<Script*> entered;       // scripts with an entry in progress
	uint32_t nestPct; int nested;
	Crowd() : w(0), nestPct(0), nested(0) {}
	~Crowd() { for (size_t i = 0; i < works.size(); ++i) delete works[i]; for (size_t i = 0; i < all.size(); ++i) delete all[i]; }
};
static Crowd* g_crowd = 0;
static Work* workOf(Crowd& c, Script* s) { for (size_t i = 0; i < c.works.size(); ++i) if (&c.works[i]->p == s->plan) return c.works[i]; return 0; }
static void crowdStep(Crowd& c, Script* s)
{
	c.entered.push_back(s);
	scriptStep(*s, chance(1, 6) ? 1 + ch(6) : 0);
	if (ch(8) == 7) probePure(*s);
	c.entered.pop_back();
}
static void crowdCallback(WRContext* ctx, const char* fn)
{
	cbForce(ctx, fn);
	Crowd& c = *g_crowd;
	if (!c.nestPct || c.entered.size() > 2 || ch(100) < 100 - c.nestPct) return;
	std::vector<Script*> v;
	for (size_t i = 0; i < c.live.size(); ++i) if (!c.live[i]->done() && std::find(c.entered.begin(), c.entered.end(), c.live[i]) == c.entered.end()) v.push_back(c.live[i]);
	if (v.empty()) return;
	Script* s = v[ch((uint32_t)v.size())];
	sched("nested entry into %s from a callback of %s", s->name, g_cur ? g_cur->name : "?");
	COUNT("sched.nested_entry"); ++c.nested;
	crowdStep(c, s);
}
static const char* c_names[] = { "A", "B", "C", "D", "E", "F", "G", "H" };
static bool crowdMake(Crowd& c, int nPlans, bool faults)
{
	for (int i = 0; i < nPlans; ++i)
	{
		GenCfg cfg = swarmCfg();
		cfg.maxCost = 200 + ch(700); cfg.topStmts = 2 + ch(6);
		cfg.yields = ch(3) == 0;
		cfg.faults = faults && ch(3) != 0; cfg.faultPct = 12;
		Work* k = new Work; c.works.push_back(k);
		makeWork(*k, cfg);
		if (!k->ok) return false;
	}
	return true;
}
static Script* crowdLoad(Crowd& c)
{
	if (c.all.size() >= 6) return 0;
	Work* k = pick(c.works);
	Script* s = new Script; c.all.push_back(s);
	sched("load %s", c_names[c.all.size() - 1]);
	if (!scriptLoad(*s, c.w, &k->p, &k->im, c_names[c.all.size() - 1])) violate("load", "a valid image is refused");
	c.live.push_back(s);
	return s;
}
static void crowdFinish(Crowd& c, Script* s, bool whole)
{
	Work* k = workOf(c, s);
	checkSame("disturbed", s->name, k->b.log, s->log, !whole);
	probePure(*s);
	wr_destroyContext(s->c);
	s->c = 0;
	c.live.erase(std::find(c.live.begin(), c.live.end(), s));
}
static void crowdRun(bool faults)
{
	uint64_t zero = g_al.liveBlocks;
	Crowd c; g_crowd = &c;
	if (!crowdMake(c, 1 + ch(3), faults)) return;
	g_phase = "together"; g_al.fill = 0x5c;
	c.w = newState(600);
	wr_setAllocatedMemoryGCHint(c.w, ch(2) ? 2000 : 0x7fffffff);
	worldArm(c.w);
	g_world.jitterGc = ch(3) == 0; g_world.gcPct = g_world.jitterGc ? ch(20) : 0;
	g_world.forcePct = ch(3) ? 0 : ch(10);
	g_cbForcePct = ch(3) ? 0 : ch(20);
	c.nestPct = ch(3) ? 0 : 1 + ch(25);
	g_callbackHook = crowdCallback;
	int n0 = 2 + ch(3);
	for (int i = 0; i < n0; ++i) crowdLoad(c);
	int guard = 0;
	while (!c.live.empty() && ++guard < 20000)
	{
		uint32_t op = ch(40);
		if (op >= 39) { crowdLoad(c); continue; }
		Script* s = c.live[ch((uint32_t)c.live.size())];
		if (op == 38) { sched("destroy %s%s", s->name, s->suspended ? " (suspended)" : ""); COUNT("sched.destroyed_midway"); crowdFinish(c, s, false); continue; }
		if (op == 37 && faults)
		{
			// the host makes a mistake: refused with the documented error, nothing else changes
			if (s->started && !s->suspended)
			{
				CurGuard g(s);
				switch (ch(3))
				{
					case 0: { if (wr_continue(s->c) || wr_getLastError(c.w) != WR_ERR_context_not_yielded) violate("continue-not-refused", "continuing %s, which is not suspended, is not refused (error %d)", s->name, wr_getLastError(c.w)); break; }
					case 1: { if (wr_callFunction(s->c, "no_such_function_here", 0, 0) || wr_getLastError(c.w) != (s->topFailed ? WR_ERR_run_must_be_called_by_itself_first : WR_ERR_wrench_function_not_found)) violate("missing-function-not-refused", "calling a function %s does not have reports error %d", s->name, wr_getLastError(c.w)); break; }
					case 2: { if (!s->topFailed && (wr_executeContext(s->c) || wr_getLastError(c.w) != WR_ERR_execute_function_zero_called_more_than_once)) violate("second-execute-not-refused", "executing %s twice reports error %d", s->name, wr_getLastError(c.w)); break; }
				}
				COUNT("fault.host_mistake");
			}
			else if (!s->started)
			{
				if (wr_callFunction(s->c, "f0", 0, 0) || wr_getLastError(c.w) != WR_ERR_run_must_be_called_by_itself_first) violate("call-before-run-not-refused", "calling a function of %s before it ran reports error %d", s->name, wr_getLastError(c.w));
				COUNT("fault.host_mistake");
			}
			continue;
		}
		setSlice(c.w, guard > 15000 ? 0 : budget());
		sched("enter %s", s->name);
		crowdStep(c, s);
		for (size_t i = 0; i < c.live.size();)
		{
			Script* t = c.live[i];
			if (faults) checkFaultMarkers(t->log, t->name);
			if (t->done() && chance(2, 3)) { crowdFinish(c, t, true); i = 0; } else ++i;
		}
		bool allDone = true;
		for (size_t i = 0; i < c.live.size(); ++i) if (!c.live[i]->done()) allDone = false; else if (c.live[i]->stage > 0 || true) {}
		if (allDone) while (!c.live.empty()) crowdFinish(c, c.live[0], true);
		else
		{
			// finished ones stay around, untouched, for a while
			std::vector<Script*> rest;
			for (size_t i = 0; i < c.live.size(); ++i) if (c.live[i]->done()) rest.push_back(c.live[i]);
			for (size_t i = 0; i < rest.size(); ++i)
			{
				Script* t = rest[i];
				if (ch(4) == 0) { size_t keep = t->log.size(); scriptObserveGlobals(*t); if (keep && t->log.back() != t->log[keep - 1]) violate("disturbed", "globals of the finished script %s changed: <%s> became <%s>", t->name, t->log[keep - 1].substr(0, 300).c_str(), t->log.back().substr(0, 300).c_str()); t->log.pop_back(); }
				crowdFinish(c, t, true);
			}
		}
	}
	if (!c.live.empty()) violate("no-progress", "scripts did not finish");
	worldOff();
	wr_destroyState(c.w);
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left after the last script and the state are gone: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
	g_crowd = 0;
}
void run_C02() { crowdRun(false); }
void run_C12() { crowdRun(true); }

// ---------------------------------------------------------------- C03
void run_C03()
{
	GenCfg cfg = swarmCfg();
	cfg.strings = true;
	cfg.yields = ch(3) == 0;
	Work k; makeWork(k, cfg);
	if (!k.ok) return;
	g_phase = "collected"; g_al.fill = 0x5c;
	WRState* w = newState(600);
	wr_setAllocatedMemoryGCHint(w, ch(2) ? 0 : ch(3000));
	worldArm(w);
	static const uint32_t pcts[] = { 100, 30, 5, 1 };
	g_world.jitterGc = ch(4) != 3; g_world.gcPct = pcts[ch(4)];
	bool slice = ch(2);
	g_cbForcePct = slice ? ch(30) : 0; g_callbackHook = cbForce;
	Script s;
	if (!scriptLoad(s, w, &k.p, &k.im, "collected")) violate("load", "a valid image is refused");
	uint32_t guard = 0;
	while (!s.done())
	{
		if (slice) setSlice(w, ++guard > 30000 ? 0 : budget());
		if (!g_world.jitterGc && ch(3) == 0) { uint32_t h = ch(4) ? ch(4000) : 0; wr_setAllocatedMemoryGCHint(w, h); sched("threshold %u", h); }
		scriptStep(s, 0);
	}
	checkSame("collection-visible", "run with collections", k.b.log, s.log);
	worldOff();
	wr_destroyState(w);
}

// ---------------------------------------------------------------- C08
static uint64_t g_ticks = 0, g_forceAt = ~0ull; static uint64_t g_ticksAfterForce = 0; static bool g_forceDone = false; static uint64_t g_tickLimit = 0;
// what a host callback may do meanwhile: run another script of the same state
static WRContext* g_nested = 0; static int g_nestPct = 0; static uint32_t g_nestBudget = 0; static bool g_nestLoops = false;
static void nestRun(WRState* w, bool lib)
{
#ifdef WRENCH_TIME_SLICES
	if (wr_getYieldInfo(g_nested)) { if (g_nestLoops && !g_nestBudget) return; wr_continue(g_nested); COUNT("sched.nested_resume"); return; }
	switch (ch(g_nestBudget ? 4 : 3))
	{
		// a library function would report that error as its own
		case 2: if (!lib) { wr_callFunction(g_nested, "nosuch"); break; }
		case 0: if (!wr_callFunction(g_nested, "quick")) violate("nested-fault", "a short call made from a host callback failed (error %d)", wr_getLastError(w)); break;
		case 1: wr_callFunction(g_nested, "yielder"); break;
		default: if (!g_nestBudget) break; g_nestLoops = true; wr_callFunction(g_nested, "loop"); if (!wr_getYieldInfo(g_nested)) violate("nested-not-suspended", "a spinning script called from a host callback came back without being suspended (error %d)", wr_getLastError(w)); break;
	}
	COUNT("sched.nested_entry");
#endif
}
static void tickOnce(WRContext* c, bool lib)
{
	++g_ticks;
	bool nested = g_nested && c != g_nested && chance(g_nestPct, 100), after = nested && ch(4) == 0;
	if (nested && !after) nestRun(c->w, lib);
	if (g_forceDone && ++g_ticksAfterForce > 8) violate("forced-yield-ignored", "%d loop iterations ran after the forced yield was requested", (int)g_ticksAfterForce);
	if (g_ticks > g_tickLimit) violate("slice-overrun", "more than %llu loop iterations ran in one entry", (unsigned long long)g_tickLimit);
#ifdef WRENCH_TIME_SLICES
	if (g_ticks == g_forceAt) { wr_forceYield(c->w); g_forceDone = true; sched("force yield at iteration %llu", (unsigned long long)g_ticks); COUNT("sched.forced_yield_requested"); }
#endif
	if (after) nestRun(c->w, lib);
}
static void h_tick(WRContext* c, const WRValue*, const int, WRValue& ret, void*) { tickOnce(c, false); wr_makeInt(&ret, 1); }
static void l_tick(WRValue* stackTop, const int, WRContext* c) { tickOnce(c, true); wr_makeInt(stackTop, 1); }
static std::string spinCond(bool inFn)
{
	static const char* ops[] = { "<", ">", "==", "!=", "<=", ">=", "&&", "||" };
	static const char* gl[] = { "one", "two", "onef" };
	static const char* lo[] = { "lone", "ltwo", "lonef" };
	std::string a, b;
	for (int k = 0; k < 2; ++k)
	{
		std::string& x = k ? b : a;
		switch (ch(inFn ? 6 : 5))
		{
			case 0: x = gl[ch(3)]; break;
			case 1: x = ch(2) ? "1" : "2"; break;
			case 2: x = ch(2) ? "(one + 0)" : "tick0()"; break;
			case 3: x = "arr[1]"; break;
			case 4: x = "hh[1]"; break;
			case 5: x = lo[ch(3)]; break;
		}
	}
	switch (ch(6))
	{
		case 0: return a;
		case 1: return "!(" + a + " - " + a + ")";
		default: return a + " " + ops[ch(8)] + " " + b;
	}
}
// a loop that never ends, whatever the condition turns out to be
static bool g_silent;
static std::string spinLoop(bool inFn, int depth)
{
	std::string body;
	switch (ch(9))
	{
		default: body = "tick();"; break;
		case 7: body = sfmt("for ( var k%d, var v%d : %s ) { tick(); }", depth + (inFn ? 10 : 0), depth + (inFn ? 10 : 0), ch(2) ? "hh" : "arr"); break;
		case 8: if (ch(2)) { body = ch(2) ? "" : "x = x + 1;"; g_silent = true; } else body = "tick();"; break;
		case 1: body = "tick(); if ( " + spinCond(inFn) + " ) { x = x + 1; } else { x = x - 1; }"; break;
		case 2: body = "tick(); switch ( x & 3 ) { case 0: x = 1; break; case 1: x = 2; break; default: x = 0; break; }"; break;
		case 3: if (depth < 1) { body = sfmt("for ( var q%d = 0; q%d < 3; ++q%d ) { tick(); }", depth + (inFn ? 10 : 0), depth + (inFn ? 10 : 0), depth + (inFn ? 10 : 0)); break; } body = "tick();"; break;
		case 4: body = sfmt("for ( var e%d : arr ) { tick(); }", depth + (inFn ? 10 : 0)); break;
		case 5: body = inFn ? "tick();" : "leaf();"; break;
		case 6: body = "s = \"a\" + x; tick();"; break;
	}
	std::string c = spinCond(inFn);
	// long jumps around a long body
	if (chance(1, 3)) { std::string l = "x = x"; for (int i = 0; i < 26; ++i) l += sfmt(" ^ %d", 70001 + i); body = ch(2) ? body + " " + l + "; x = 0;" : l + "; " + body; }
	switch (ch(9))
	{
		default:
		case 0: return "while ( true ) { " + body + " }";
		case 1: return "for ( ;; ) { " + body + " }";
		case 2: return "do { " + body + " } while ( 1 );";
		case 3: return "again: " + body + " goto again;";
		case 4: return "while ( 1 ) { if ( x < 0 ) { x = 0; } x = x + 1; " + body + " if ( " + c + " ) { continue; } x = 0; }";
		// the condition decides whether this loop or the outer one repeats; both spin
		case 5: return "for ( ;; ) { do { " + body + " } while ( " + c + " ); }";
		case 6: return "for ( ;; ) { while ( " + c + " ) { " + body + " } tick(); }";
		case 7: return "for ( ;; ) { for ( ; " + c + "; ) { " + body + " } tick(); }";
		case 8: return "again2: if ( " + c + " ) { " + body + " goto again2; } tick(); goto again2;";
	}
}
// no loop at all: a call tree far too large to finish, each call deciding by one branch whether to go on
static std::string spinTree()
{
	static const char* ops[] = { "<", "<=", "==" };
	static const char* rops[] = { ">", ">=", "==" };
	std::string longp = "";
	if (chance(1, 3)) { longp = "x = x"; for (int i = 0; i < 26; ++i) longp += sfmt(" ^ %d", 70001 + i); longp += "; x = 0; "; }
	bool glob = ch(3) == 0;
	std::string n = glob ? "gdepth" : "n", stop, go;
	static const char* zeros[] = { "0", "zero", "lzero", "(zero + 0)" };
	std::string z = zeros[ch(4)], v = ch(3) ? n : "(" + n + " + 0)";
	switch (ch(9))
	{
		default: stop = v + " " + ops[ch(3)] + " " + z; break;
		case 1: stop = z + " " + rops[ch(3)] + " " + v; break;
		case 2: stop = "!" + v; break;
		case 3: go = v; break;
		case 4: go = v + " && one"; break;
		case 5: go = v + " || zero"; break;
		case 6: go = v + " != " + z; break;
		case 7: go = v + " > " + z; break;
		case 8: go = z + " < " + v; break;
	}
	std::string tick = ch(4) ? "tick(); " : ""; if (tick.empty()) g_silent = true;
	std::string dec = glob ? "gdepth = gdepth - 1; " : "", inc = glob ? "gdepth = gdepth + 1; " : "", call = glob ? "tree( 0 );" : "tree( n - 1 );";
	std::string body = longp + (ch(2) ? call + " " + call : "x = " + call + " x = " + call), f = "function tree( n ) { var lzero = 0; ";
	if (chance(1, 3)) { f = "function tree( n ) { "; if (stop.find("lzero") != std::string::npos || go.find("lzero") != std::string::npos) f += "var lzero = 0; "; }
	f += dec + tick;
	if (go.empty())
	{
		if (ch(2)) f += "if ( " + stop + " ) { " + longp + inc + "return 1; } " + body + " " + inc + "return 2; }\n";
		else f += "if ( " + stop + " ) { " + longp + " x = 0; } else { " + body + " } " + inc + "return 2; }\n";
	}
	else if (!glob && ch(4) == 0) return "var zero = 0; var lo[] = { 1 }; var lv[23]; for ( var li = 1; li < 23; ++li ) { lv[li] = lo; }\n"
		"function tree( n ) { " + tick + "var l = lv[n]; for ( var e : l ) { " + body + " return 1; } return 2; }\n";
	else if (ch(3)) f += "if ( " + go + " ) { " + body + " } " + inc + "return 2; }\n";
	else { f += "switch ( (" + go + ") ? 1 : 0 ) { case 1: " + body + " break; default: x = 0; break; } " + inc + "return 2; }\n"; }
	return "var gdepth = 22; var zero = 0;\n" + f;
}
void run_C08()
{
#ifdef WRENCH_TIME_SLICES
	bool finite = ch(4) == 0;
	g_silent = false;
	std::string pre = "var one = 1; var two = 2; var onef = 1.0; var x = 0; var s = \"\"; var arr[] = { 1, 1, 2 }; var hh = { 1:1, 2:2 };\n"
		"function leaf() { tick(); return 1; }\nfunction tick0() { return 1; }\n";
	std::string src;
	int where = ch(4);
	bool imp = !finite && ch(6) == 0;
	if (imp) { src = pre + "for ( ;; ) { " + (ch(2) ? "impf();" : "x = impf();") + " }\n"; where = 9; }
	else if (finite)
	{
		int n = 50 + ch(400);
		src = pre + "function spin() { var lone = 1; var ltwo = 2; var lonef = 1.0; for ( var i = 0; i < " + sfmt("%d", n) + "; ++i ) { tick(); } return 7; }\n";
		src += where & 1 ? "spin();\n" : "";
	}
	else if (ch(3) == 0)
	{
		src = pre + spinTree() + "function spin() { return tree( 22 ); }\n";
		if (where != 3) src += where ? "spin();\n" : "tree( 22 );\n";
		COUNT("gen.call_tree");
	}
	else
	{
		src = pre + "function spin() { var lone = 1; var ltwo = 2; var lonef = 1.0; " + spinLoop(true, 0) + " return 7; }\n";
		if (where == 0) src += spinLoop(false, 0) + "\n";
		else if (where == 1) src += "spin();\n";
		else if (where == 2) src += "function deep( n ) { if ( n > 0 ) { return deep( n - 1 ); } return spin(); }\ndeep( " + sfmt("%d", (int)ch(6)) + " );\n";
	}
	if (ch(4) == 3) { std::string t; for (size_t i = 0; i < src.size(); ++i) { if (src.compare(i, 6, "tick()") == 0 && (!i || !isalnum((unsigned char)src[i - 1]))) t += "zz::"; t += src[i]; } src = t; }
	noteBlock("script", src);
	Bytes im, imImp;
	if (!compileTo(src, im)) { COUNT("gen.compile_refused"); note("refused"); return; }
	WRState* w = newState(300);
	wr_registerFunction(w, "tick", h_tick, 0);
	wr_registerLibraryFunction(w, "zz::tick", l_tick);
	wr_setAllocatedMemoryGCHint(w, 3000);
	Plan p; if (where == 3 || (finite && !(where & 1))) { Call k; k.fn = "spin"; p.calls.push_back(k); }
	Script s; s.logGlobals = false;
	if (!scriptLoad(s, w, &p, &im, "spin")) violate("load", "a valid image is refused");
	if (imp)
	{
		compileTo("function impf() { tick(); return 1; }\n", imImp);
		CurGuard g(&s);
		if (!wr_import(s.c, &imImp[0], (int)imImp.size())) violate("import", "a valid image cannot be imported");
	}
	g_phase = "spinning";
	g_nested = 0; g_nestPct = 0; g_nestLoops = false;
	Bytes imN; Plan pn; Script sn; sn.logGlobals = false;
	if (ch(4) == 0 && compileTo("var y = 0; function quick() { return 5; } function yielder() { yield( 3 ); for ( var i = 0; i < 4; ++i ) { y = y + 1; } return 6; } function loop() { for ( ;; ) { y = y + 1; } }\n", imN))
	{
		setSlice(w, 0);
		if (!scriptLoad(sn, w, &pn, &imN, "nested")) violate("load", "a valid image is refused");
		scriptStep(sn, 0);
		g_nested = sn.c; g_nestPct = 1 + ch(60);
	}
	uint64_t total = 0; int entries = 0, zeroProgress = 0;
	if (finite)
	{
		// no budget and no request: never preempted
		wr_setInstructionsPerSlice(w, 0);
		g_forceAt = ~0ull; g_forceDone = false; g_tickLimit = 1 << 30; g_ticks = 0; g_nestBudget = 0;
		while (!s.done()) { scriptStep(s, 0); if (s.suspended) violate("preempted-without-budget", "a script without a budget was suspended"); }
		sched("unlimited %d", where); COUNT("sched.unlimited_entries");
		wr_destroyState(w);
		return;
	}
	int want = 3 + ch(40);
	while (entries < want && !s.done())
	{
		uint32_t n = 0;
		bool force = ch(3) == 0;
		if (!force) { do n = budget(); while (!n); }
		else n = ch(2) ? 0 : budget();
		g_ticks = 0; g_ticksAfterForce = 0; g_forceDone = false;
		if (force && g_silent && !n) n = 40; // nobody there to ask for it
		g_forceAt = force ? 1 + ch(200) : ~0ull;
		g_tickLimit = n ? 2ull * n + 8 : 100000;
		setSlice(w, n); g_nestBudget = n;
		int fy = s.forcedYields;
		scriptStep(s, 0);
		++entries;
		if (s.stage == 0 && !s.suspended && where == 3) { continue; }
		if (!s.suspended || s.forcedYields != fy + 1) violate("not-suspended", "a spinning script came back without being suspended (error %d)", s.lastErr);
		total += g_ticks;
		if (n >= 24 && !g_ticks && !g_silent) { if (++zeroProgress > 2) violate("no-progress", "%d slices of %u made no progress", zeroProgress, n); }
		COUNT("sched.preempted");
	}
	if (entries > 30 && total == 0 && !g_silent) violate("no-progress", "a sliced script made no progress in %d entries", entries);
	wr_destroyState(w);
#endif
}

// ---------------------------------------------------------------- C09
void run_C09()
{
	GenCfg cfg = swarmCfg();
	cfg.yields = true; cfg.yieldPct = ch(3) * 12;
	cfg.faults = ch(5) == 0; cfg.faultPct = 3;
	Work k; makeWork(k, cfg);
	if (!k.ok) return;
	g_phase = "yielding"; g_al.fill = 0x5c;
	WRState* w = newState(600);
	wr_setAllocatedMemoryGCHint(w, ch(2) ? 0x7fffffff : ch(2000));
	worldArm(w);
	g_world.jitterGc = ch(3) == 0; g_world.gcPct = g_world.jitterGc ? 1 + ch(30) : 0;
	Script s;
	if (!scriptLoad(s, w, &k.p, &k.im, "yielding")) violate("load", "a valid image is refused");
	bool slice = ch(3) == 0; uint32_t guard = 0;
	while (!s.done())
	{
		if (s.started && !s.suspended && chance(1, 3))
		{
			CurGuard g(&s);
			size_t n = s.log.size();
			WRValue* r = wr_continue(s.c);
			if (r || wr_getLastError(w) != WR_ERR_context_not_yielded) violate("continue-not-refused", "continuing a script that is not suspended: result %p error %d", (void*)(uintptr_t)(r != 0), wr_getLastError(w));
			if (s.log.size() != n) violate("continue-not-refused", "continuing a script that is not suspended ran some of it");
			if (wr_getYieldInfo(s.c)) violate("continue-not-refused", "a refused continue left the script suspended");
			COUNT("fault.continue_not_suspended"); sched("continue while not suspended");
		}
		if (s.suspended && chance(1, 4))
		{
			// looking twice shows the same thing
			WRValue *a1 = 0, *a2 = 0, *r1 = 0, *r2 = 0; int n1 = -1, n2 = -1;
			wr_getYieldInfo(s.c, &a1, &n1, &r1); wr_getYieldInfo(s.c, &a2, &n2, &r2);
			if (a1 != a2 || n1 != n2 || r1 != r2) violate("yield-info-unstable", "yield information changes between two looks");
		}
		if (slice) setSlice(w, ++guard > 30000 ? 0 : budget());
		bool was = s.suspended;
		int how = chance(1, 3) ? 1 + ch(6) : 0;
		sched("entry %d resume %d", s.entries, how);
		scriptStep(s, how);
		if (was && how) COUNT("sched.resumed_by_call");
	}
	for (int i = 0; i < s.yields; ++i) COUNT("sched.yields");
	checkSame("yield-differs", "yielding run", k.b.log, s.log);
	worldOff();
	wr_destroyState(w);
}

// ---------------------------------------------------------------- C10
#ifdef WRENCH_TIME_SLICES
struct Task
{
	Script s; Work* k; int id; WRContext* c; bool over; std::vector<uint32_t> slices; bool immortal; uint32_t addBudget; bool owned; bool gone, leaving;
	// the same task alone
	WRState* aw; Script as; bool aOver; int aErr;
	Task() : k(0), id(0), c(0), over(false), immortal(false), addBudget(0), owned(false), gone(false), leaving(false), aw(0), aOver(false), aErr(0) {}
};
static std::vector<Task*> g_tasks; static Task* g_adding = 0;
static Script* taskResolve(WRContext* c)
{
	if (g_adding && (!g_adding->c || g_adding->c == c)) { g_adding->c = c; return &g_adding->s; }
	for (size_t i = 0; i < g_tasks.size(); ++i) if (g_tasks[i]->c == c && (!g_tasks[i]->over || g_tasks[i]->leaving)) return &g_tasks[i]->s;
	violate("stray-callback", "a callback arrived from a task that already ended");
}
static void aloneStep(Task* t, uint32_t q)
{
	// own state: the simulated peer that runs this task and nothing else
	Script* (*keep)(WRContext*) = g_ctxResolve; g_ctxResolve = 0;
	AllocHook* h = g_al.hook; g_al.hook = 0;
	void (*keepHook)(WRContext*, const char*) = g_callbackHook; g_callbackHook = 0;
	const char* ph = g_phase; g_phase = "alone";
	if (!t->aw)
	{
		t->aw = newState(400); t->as.plan = &t->k->p; t->as.name = "alone"; t->as.w = t->aw;
		t->as.c = wr_newContext(t->aw, &t->k->im[0], (int)t->k->im.size());
		wr_setAllocatedMemoryGCHint(t->aw, 0x7fffffff);
	}
	wr_setInstructionsPerSlice(t->aw, (int)q);
	CurGuard g(&t->as);
	WRValue* r = t->as.started ? wr_continue(t->as.c) : wr_executeContext(t->as.c);
	t->as.started = true;
	if (!wr_getYieldInfo(t->as.c)) { t->aOver = true; t->aErr = r ? 0 : wr_getLastError(t->aw); }
	g_ctxResolve = keep; g_al.hook = h; g_phase = ph; g_callbackHook = keepHook;
}
static void aloneEnd(Task* t) { if (t->aw) { AllocHook* h = g_al.hook; g_al.hook = 0; wr_destroyState(t->aw); t->aw = 0; g_al.hook = h; } }
struct Sched
{
	WrenchScheduler* sc; WRState* w; std::vector<Work*> works; Work* spin; std::vector<Task*> pool; std::set<int> ids; int liveSpins; size_t names; bool ticking; uint32_t fromPct;
	Sched() : sc(0), w(0), spin(0), liveSpins(0), names(0), ticking(false), fromPct(0) {}
};
static Sched* g_sd = 0;
static size_t liveTasks() { size_t live = 0; for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->over) ++live; return live; }
static void addTask(Sched& d)
{
	Task* t = new Task; d.pool.push_back(t);
	t->immortal = ch(6) == 0; t->k = t->immortal ? d.spin : d.works[ch((uint32_t)d.works.size() - 1)];
	t->s.name = c_names[d.names++ % 8]; t->s.plan = &t->k->p;
	uint32_t q; do q = budget(); while (!q);
	t->owned = ch(3) == 0;
	sched("add %s budget %u", t->s.name, q);
	const uint8_t* image = &t->k->im[0];
	if (t->owned) { uint8_t* cp = (uint8_t*)wr_malloc(t->k->im.size()); memcpy(cp, image, t->k->im.size()); image = cp; }
	g_adding = t;
	int id = d.sc->addThread(image, (int)t->k->im.size(), (int)q, t->owned);
	g_adding = 0;
	int err = wr_getLastError(d.w);
	aloneStep(t, q);
	if (callbackLines(t->as.log) != callbackLines(t->s.log)) checkSame("task-differs", t->s.name, callbackLines(t->as.log), callbackLines(t->s.log));
	if (id > 0)
	{
		if (t->aOver) violate("task-not-over", "task %s ended in its first slice alone but was scheduled", t->s.name);
		if (d.ids.count(id)) violate("duplicate-id", "two tasks have the same identifier");
		d.ids.insert(id);
		t->id = id; g_tasks.push_back(t);
		if (t->immortal) ++d.liveSpins;
	}
	else
	{
		if (!t->aOver) violate("task-lost", "task %s was not scheduled though it had not ended", t->s.name);
		if (id == 0 && t->aErr) violate("fault-hidden", "task %s faulted with %d in its first slice and was reported complete", t->s.name, t->aErr);
		if (id < 0 && !t->aErr) violate("false-fault", "task %s completed in its first slice and was reported failed", t->s.name);
		if (id < 0 && err != t->aErr) violate("wrong-error", "task %s failed with %d, reported %d", t->s.name, t->aErr, err);
		t->over = true;
		// an ended task gives its memory back; only the image owner differs
		aloneEnd(t);
	}
	COUNT("sched.task_added");
}
static void dropTask(Sched& d, Task* t)
{
	bool was = !t->over;
	sched("remove %s%s", t->s.name, was ? "" : " (over)");
	bool r = d.sc->removeTask(t->id);
	// it may have ended earlier in this tick; that is checked when the tick is over
	if (!r && was && d.ticking) { t->gone = true; return; }
	if (r != was) violate("remove-result", "removing task %s, which was %s, returned %d", t->s.name, was ? "running" : "over", (int)r);
	if (was) { t->over = true; if (t->immortal) --d.liveSpins; aloneEnd(t); }
	if (d.sc->removeTask(t->id)) violate("remove-result", "removing a task a second time succeeded");
	COUNT("sched.task_removed");
}
// a task asks the host to start another one, or to stop one, while it runs itself
static void taskCallback(WRContext* c, const char*)
{
	Sched& d = *g_sd;
	if (!d.ticking || g_adding || !chance(d.fromPct, 100)) return;
	CurGuard g(g_cur);
	if (ch(3) && liveTasks() < 6) { COUNT("sched.task_added_by_task"); sched("(from a task)"); addTask(d); return; }
	std::vector<Task*> v; for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->over && g_tasks[i]->c != c) v.push_back(g_tasks[i]);
	// or itself: it stops soon, and does not come back
	for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->over && g_tasks[i]->c == c && ch(3) == 0)
	{
		COUNT("sched.task_removes_itself"); sched("(itself)"); g_tasks[i]->leaving = true; dropTask(d, g_tasks[i]); return;
	}
	if (v.empty()) return;
	COUNT("sched.task_removed_by_task"); sched("(from a task)"); dropTask(d, v[ch((uint32_t)v.size())]);
}
#endif
void run_C10()
{
#ifdef WRENCH_TIME_SLICES
	g_silentYield = true;
	std::vector<Work*> works;
	int nw = 1 + ch(3);
	for (int i = 0; i < nw; ++i)
	{
		GenCfg cfg = swarmCfg();
		cfg.maxCost = 150 + ch(600); cfg.topStmts = 2 + ch(6); cfg.nCalls = 0;
		cfg.yields = ch(3) == 0; cfg.faults = ch(2) == 0; cfg.faultPct = 10;
		Work* k = new Work; works.push_back(k);
		k->p = genPlan(cfg);
		// the first thing a task does identifies it
		k->p.src = "log( \"start\" );\n" + k->p.src;
		k->p.calls.clear();
		noteBlock("script", k->p.render(true));
		k->ok = compileTo(k->p.render(true), k->im);
		if (!k->ok) { for (size_t j = 0; j < works.size(); ++j) delete works[j]; return; }
	}
	Work* spin = new Work; works.push_back(spin);
	spin->p.src = "log( \"start\" ); var z = 0; for ( ;; ) { z = z + 1; if ( (z % 50) == 0 ) { log( z ); } }\n";
	compileTo(spin->p.src, spin->im);
	g_phase = "scheduled"; g_al.fill = 0x5c;
	g_tasks.clear(); g_adding = 0;
	uint64_t mark0 = g_al.liveBlocks;
	WrenchScheduler* sc = new WrenchScheduler(400);
	WRState* w = sc->state();
	wr_loadAllLibs(w); registerHost(w);
	wr_setAllocatedMemoryGCHint(w, 3000);
	g_ctxResolve = taskResolve;
	uint64_t mark = g_al.liveBlocks;
	int ops = 10 + ch(60);
	Sched d; g_sd = &d; d.sc = sc; d.w = w; d.works = works; d.spin = spin;
	if (ch(3) == 0) d.fromPct = 1 + ch(30);
	g_callbackHook = taskCallback;
	std::vector<Task*>& pool = d.pool; int& liveSpins = d.liveSpins;
	if (ch(24) == 23)
	{
		// many come and go while a few stay
		std::vector<int> stay; int n = 300 + ch(900); COUNT("sched.churn");
		for (int i = 0; i < n; ++i)
		{
			Task t; t.s.name = "Y"; t.s.plan = &spin->p; g_adding = &t;
			int id = sc->addThread(&spin->im[0], (int)spin->im.size(), 2 + ch(3), false); g_adding = 0;
			if (id <= 0) violate("task-lost", "an endless task was not scheduled (%d)", id);
			if (std::find(stay.begin(), stay.end(), id) != stay.end()) violate("duplicate-id", "two tasks have the same identifier");
			if (i % 100 == 50 && stay.size() < 4) stay.push_back(id);
			else if (!sc->removeTask(id)) violate("remove-result", "removing a running task failed");
		}
		for (size_t i = 0; i < stay.size(); ++i) if (!sc->removeTask(stay[i])) violate("remove-result", "removing a running task failed");
		if (g_al.liveBlocks > mark) violate("task-memory-kept", "%lld blocks of removed tasks are still allocated", (long long)(g_al.liveBlocks - mark));
	}
	for (int op = 0; ; ++op)
	{
		bool draining = op >= ops;
		size_t live = liveTasks();
		if (draining && !live) break;
		if (op > 20000) violate("starved", "a task did not finish within the ticks its own length needs");
		uint32_t what = draining ? 0 : ch(10);
		if (what >= 7 && live < 6)
		{
			addTask(d);
			continue;
		}
		if (what == 6 && !g_tasks.empty())
		{
			dropTask(d, g_tasks[ch((uint32_t)g_tasks.size())]);
			continue;
		}
		if (what == 5) { if (sc->removeTask(1 << 29)) violate("remove-result", "removing an unknown identifier succeeded"); if (ch(2)) { sc->clearErr(); if (sc->lastErr() || sc->lastErrTaskId()) violate("clear-error", "cleared error is still reported"); } continue; }
		uint32_t q = budget();
		if (liveSpins && !q) q = 1 + ch(50);
		if (draining && op > ops + 3000) q = 5000;
		if (draining && liveSpins)
		{
			// the endless ones are removed only when all others are through
			size_t others = 0; for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->over && !g_tasks[i]->immortal) ++others;
			if (!others) { for (size_t i = 0; i < g_tasks.size(); ++i) if (!g_tasks[i]->over) { if (!sc->removeTask(g_tasks[i]->id)) violate("remove-result", "removing a running task failed"); g_tasks[i]->over = true; aloneEnd(g_tasks[i]); } liveSpins = 0; continue; }
		}
		sched("tick %u", q);
		int e0 = sc->lastErr(), i0 = sc->lastErrTaskId();
		size_t before = g_tasks.size();
		d.ticking = !draining;
		sc->tick((int)q);
		d.ticking = false;
		for (size_t i = 0; i < g_tasks.size(); ++i) g_tasks[i]->leaving = false;
		++g_steps;
		std::set<std::pair<int, int> > faulted;
		for (size_t i = 0; i < before; ++i)
		{
			Task* t = g_tasks[i];
			if (t->over) continue;
			aloneStep(t, q);
			if (t->gone && !t->aOver) violate("remove-result", "removing running task %s from another task's callback failed", t->s.name);
			std::vector<std::string> a = callbackLines(t->as.log), b = callbackLines(t->s.log);
			if (a != b) checkSame("task-differs", t->s.name, a, b);
			if (t->aOver)
			{
				t->over = true;
				if (t->aErr) { faulted.insert(std::make_pair(t->id, t->aErr)); COUNT("fault.task_faulted"); }
				else COUNT("sched.task_completed");
				aloneEnd(t);
				// gone: removing it finds nothing
				if (chance(1, 3) && sc->removeTask(t->id)) violate("ended-task-kept", "task %s ended in this tick but is still scheduled", t->s.name);
			}
		}
		if (faulted.empty()) { if (sc->lastErr() != e0 || sc->lastErrTaskId() != i0) violate("error-report", "an error was reported in a tick without a fault"); }
		else if (!faulted.count(std::make_pair(sc->lastErrTaskId(), sc->lastErr()))) violate("error-report", "%d task(s) faulted in this tick; error %d is reported for another task or code", (int)faulted.size(), sc->lastErr());
	}
	for (size_t i = 0; i < pool.size(); ++i) aloneEnd(pool[i]);
	// everything every task allocated is back (task images given away included)
	if (g_al.liveBlocks > mark) violate("task-memory-kept", "%lld blocks of ended tasks are still allocated: %s", (long long)(g_al.liveBlocks - mark), alloc_describeLive().c_str());
	// leave some running when the scheduler goes away
	int extra = ch(4);
	for (int i = 0; i < extra; ++i)
	{
		Task* t = new Task; pool.push_back(t); t->immortal = true; t->k = spin; t->s.name = "X"; t->s.plan = &spin->p;
		g_adding = t; sc->addThread(&spin->im[0], (int)spin->im.size(), 1 + ch(20), false); g_adding = 0;
		g_tasks.push_back(t);
	}
	delete sc;
	if (g_al.liveBlocks != mark0) violate("scheduler-leak", "%lld blocks left after the scheduler was destroyed", (long long)(g_al.liveBlocks - mark0));
	for (size_t i = 0; i < pool.size(); ++i) delete pool[i];
	for (size_t j = 0; j < works.size(); ++j) delete works[j];
	g_tasks.clear();
#endif
}
