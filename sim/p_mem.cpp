// Memory properties: everything freed once, garbage reclaimed, failed allocations, stack exhaustion.
#include "world.h"

// ---------------------------------------------------------------- C04
// break a source text: what an author's unfinished edit leaves behind
static std::string damageText(std::string const& s)
{
	if (s.size() < 8) return s;
	std::string o = s;
	size_t at = ch((uint32_t)s.size());
	switch (ch(6))
	{
		case 0: return s.substr(0, at);
		case 1: o.erase(at, 1 + ch(4)); return o;
		case 2: { static const char* junk[] = { "}", "{", "(", ")", ";", "\"", "var ", "function ", "return", "::", "[", "]", "=", "struct ", "new ", "/*", "case 1:", "goto x;", "break;", "yield(" }; o.insert(at, junk[ch(20)]); return o; }
		case 3: { size_t b = ch((uint32_t)s.size()); std::swap(o[at], o[b]); return o; }
		case 4: o[at] = (char)(32 + ch(95)); return o;
		default: return s.substr(at);
	}
}
struct Cycle
{
	std::vector<Work*>* all; uint32_t order;
	int kind; Work* k; uint32_t q; int stop; bool owned; uint32_t hint; int extra; std::string text; int resume; Bytes im2; bool damaged;
	Cycle() : all(0), order(0), kind(0), k(0), q(0), stop(0), owned(false), hint(0), extra(0), resume(0), damaged(false) {}
};
static WRContext* loadCycle(WRState* w, Bytes const& im, bool owned)
{
	const uint8_t* p = &im[0];
	if (owned) { uint8_t* cp = (uint8_t*)wr_malloc(im.size()); memcpy(cp, p, im.size()); p = cp; }
	return wr_newContext(w, p, (int)im.size(), owned);
}
static void runCycle(WRState* w, Cycle const& y)
{
	wr_setAllocatedMemoryGCHint(w, y.hint);
	Script s; s.name = "cycle";
	switch (y.kind)
	{
		case 0:   // run some of a script, then destroy it as it is
		case 4:   // the same with another image imported on the way
		{
			s.w = w; s.plan = &y.k->p; s.image = &y.k->im;
			s.c = loadCycle(w, y.k->im, y.owned);
			if (!s.c) violate("load", "a valid image is refused");
			wr_setLocalContext(s.c, &s);
			setSlice(w, y.q);
			for (int i = 0; i < y.stop && !s.done(); ++i) { scriptStep(s, y.resume); if (i > 60) setSlice(w, 0); }
			if (y.kind == 4 && s.started && !s.suspended && !s.topFailed)
			{
				CurGuard g(&s);
				// a damaged image stays the host's
				bool own = y.owned && !y.damaged;
				const uint8_t* p = &y.im2[0];
				if (own) { uint8_t* cp = (uint8_t*)wr_malloc(y.im2.size()); memcpy(cp, p, y.im2.size()); p = cp; }
				setSlice(w, 0);
				WRContext* i = wr_import(s.c, p, (int)y.im2.size(), own);
				if (y.damaged && i) violate("damaged-import", "a damaged image was imported");
			}
			if (y.extra == 1 && s.started && !s.topFailed && !s.suspended)
			{
				CurGuard g(&s); WRValue v; v.init();
				wr_instanceStruct(&v, s.c, "S0");
			}
			wr_destroyContext(s.c);
			break;
		}
		case 1:   // atomic runs
		{
			CurGuard g(&s); s.w = w; s.plan = &y.k->p;
			setSlice(w, y.q);
			const uint8_t* p = &y.k->im[0];
			if (y.owned) { uint8_t* cp = (uint8_t*)wr_malloc(y.k->im.size()); memcpy(cp, p, y.k->im.size()); p = cp; }
			WRContext* c = wr_run(w, p, (int)y.k->im.size(), y.owned, y.extra == 1);
			if (y.extra != 1) wr_destroyContext(c);   // otherwise it is gone already, whatever became of it
			break;
		}
		case 2:
		{
			CurGuard g(&s); s.w = w; s.plan = &y.k->p;
			setSlice(w, y.q);
			std::string t = y.text.empty() ? y.k->p.render(true) : y.text;
			wr_runCommand(w, t.c_str(), (int)t.size());
			break;
		}
		case 3:   // compile, fail or not
		{
			unsigned char* o = 0; int n = 0;
			WRError e = wr_compile(y.text.c_str(), (int)y.text.size(), &o, &n, 0, (uint8_t)y.extra);
			if (e == WR_ERR_None) { wr_free(o); COUNT("probe.damaged_source_compiled"); } else COUNT("fault.compile_refused");
			break;
		}
		case 5:   // the script imports by itself
		{
			Bytes im;
			if (!compileTo(y.text, im)) break;
			Plan p; p.src = y.text;
			s.w = w; s.plan = &p;
			s.c = loadCycle(w, im, y.owned);
			wr_setLocalContext(s.c, &s);
			setSlice(w, y.q);
			for (int i = 0; i < y.stop && !s.done(); ++i) { scriptStep(s, 0); if (i > 60) setSlice(w, 0); }
			wr_destroyContext(s.c);
			break;
		}
		case 6:   // values handed to the host
		{
			s.w = w; s.plan = &y.k->p; s.image = &y.k->im; s.logGlobals = false;
			s.c = loadCycle(w, y.k->im, y.owned);
			wr_setLocalContext(s.c, &s);
			setSlice(w, 0);
			while (!s.done()) scriptStep(s, 0);
			if (!s.topFailed)
			for (size_t i = 0; i < y.k->p.globals.size(); ++i)
			{
				WRValue* g = wr_getGlobalRef(s.c, y.k->p.globals[i].c_str());
				if (!g) continue;
				char* buf = 0; int len = 0;
				if (wr_serialize(&buf, &len, *g))
				{
					WRValue v; v.init();
					wr_deserialize(s.c, v, buf, y.extra ? len / (1 + y.extra) : len);
					wr_free(buf);
				}
				if (g->isInt() || g->isFloat() || g->isString()) { char* m = g->asMallocString(); wr_free(m); }
			}
			wr_destroyContext(s.c);
			break;
		}
		case 8:   // several scripts at once, destroyed in any order
		{
			uint32_t r = y.order; int n = 2 + y.extra;
			std::vector<Script*> v;
			for (int i = 0; i < n; ++i)
			{
				Work* k = (*y.all)[(r >> i) % y.all->size()];
				Script* t = new Script; v.push_back(t);
				t->w = w; t->plan = &k->p; t->name = "crowd"; t->image = &k->im;
				t->c = loadCycle(w, k->im, y.owned);
				if (!t->c) violate("load", "a valid image is refused");
				wr_setLocalContext(t->c, t);
			}
			for (int i = 0; i < y.stop * n; ++i) { setSlice(w, i > 60 ? 0 : y.q); if (!v[i % n]->done()) scriptStep(*v[i % n], y.resume); }
			while (v.size())
			{
				r = r * 1664525u + 1013904223u;
				size_t i = (r >> 16) % v.size();
				wr_destroyContext(v[i]->c); delete v[i]; v.erase(v.begin() + i);
				if (v.size() && (r & 3) == 0) { i = (r >> 20) % v.size(); setSlice(w, y.q); if (!v[i]->done()) scriptStep(*v[i], y.resume); }
			}
			break;
		}
		case 7:   // host containers
		{
			WRValue h; h.init(); WRValue lent[3]; for (int i = 0; i < 3; ++i) lent[i].init(i);
			char raw[16] = "raw array bytes";
			wr_makeContainer(&h, (uint16_t)(y.extra));
			for (int i = 0; i < y.stop; ++i)
			{
				std::string n = sfmt("m%d", i);
				switch ((i + y.extra) % 4) { case 0: wr_addIntToContainer(&h, n.c_str(), i); break; case 1: wr_addFloatToContainer(&h, n.c_str(), i * 0.5f); break; case 2: wr_addValueToContainer(&h, n.c_str(), &lent[i % 3]); break; case 3: wr_addArrayToContainer(&h, n.c_str(), raw, 16); break; }
			}
			wr_destroyContainer(&h);
			break;
		}
	}
}
void run_C04()
{
	uint64_t zero = g_al.liveBlocks;
	std::vector<Work*> works;
	int nw = 1 + ch(2);
	bool ok = true;
	for (int i = 0; i < nw && ok; ++i)
	{
		GenCfg cfg = swarmCfg();
		cfg.maxCost = 200 + ch(900); cfg.topStmts = 2 + ch(6);
		cfg.yields = ch(3) == 0; cfg.faults = ch(3) == 0; cfg.faultPct = 8;
		Work* k = new Work; works.push_back(k);
		makeWork(*k, cfg);
		ok = k->ok;
	}
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left after compiling and a complete run with its state destroyed: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
	if (!ok) { for (size_t i = 0; i < works.size(); ++i) delete works[i]; return; }
	g_phase = "history"; g_al.fill = 0x5c;
	g_imgs.clear(); g_srcs.clear();
	{
		// what scripts can import: good code, code that yields, faults or imports further, damaged code
		static const char* src[] = { "function ia( n ) { return n + 1; } var q = \"top\"; var h = { 1:\"a\", 2:\"b\" };", "struct T( x ) { var a = x; }; function ib() { return \"str\" + 4; }", "var z = 1; yield( z );", "nosuchfunction( 5 );", "function ic() { nosuchfunction( 1 ); }", "function id() { yield( 1 ); }",
			"sys::importCompile( \"function deep() { return 5; }\" ); function ie() { return deep(); }", "var e = \"unfinished" };
		for (int i = 0; i < 8; ++i) { Bytes b; g_srcs.push_back(src[i]); if (compileTo(src[i], b)) g_imgs.push_back(b); }
		for (int i = 0; i < 3; ++i) { Bytes b = g_imgs[ch((uint32_t)g_imgs.size())]; if (ch(2)) b.resize(1 + ch((uint32_t)b.size() - 1)); else b[ch((uint32_t)b.size())] ^= 1 + ch(255); g_imgs.push_back(b); }
	}
	WRState* w = newState(400);
	int cleanups[3] = { 0, 0, 0 }, wanted = ch(4);
	for (int i = 0; i < wanted; ++i) wr_addLibraryCleanupFunction(w, [](WRState*, void* p) { ++*(int*)p; }, &cleanups[i]);
	int n = 2 + ch(8);
	for (int i = 0; i < n; ++i)
	{
		Cycle y;
		y.kind = ch(9); y.all = &works; y.order = (uint32_t)(ch(65536) << 16 | ch(65536)); y.k = works[ch((uint32_t)works.size())];
		y.q = budget(); y.stop = ch(4) ? ch(12) : 400; y.owned = ch(2); y.hint = ch(3) ? ch(4000) : 0x7fffffff; y.extra = ch(4); y.resume = ch(3) ? 0 : ch(6);
		if (y.kind == 3) { y.text = damageText(works[ch((uint32_t)works.size())]->p.render(true)); static const int fl[] = { WR_INCLUDE_GLOBALS, 0, WR_INCLUDE_GLOBALS | WR_EMBED_DEBUG_CODE, WR_INCLUDE_GLOBALS | WR_EMBED_SOURCE_CODE }; y.extra = fl[ch(4)]; }
		if (y.kind == 2 && ch(2))
		{
			// damaged text is only run when it does not compile: what compiles may do anything
			y.text = damageText(y.k->p.render(true));
			unsigned char* o = 0; int ol = 0;
			if (!wr_compile(y.text.c_str(), (int)y.text.size(), &o, &ol)) { wr_free(o); y.text.clear(); }
		}
		if (y.kind == 2 && y.text.empty()) y.q = 0;
		if (y.kind == 4) { y.im2 = g_imgs[ch((uint32_t)g_imgs.size())]; y.damaged = !wr_isBytecodeValid(&y.im2[0], (unsigned)y.im2.size()); if (y.stop < 2) y.stop = 400; }
		if (y.kind == 5)
		{
			int k = 1 + ch(3);
			for (int j = 0; j < k; ++j)
			{
				if (ch(2)) y.text += sfmt("var r%d = sys::importByteCode( img( %d ) );\n", j, (int)ch((uint32_t)g_imgs.size()));
				else y.text += sfmt("sys::importCompile( src( %d ) );\n", (int)ch((uint32_t)g_srcs.size()));
				if (ch(2)) { static const char* u[] = { "log( ia( 4 ) );", "log( ib() );", "var t = new T( 3 ); log( t.a );", "log( ie() );", "ic();", "id();", "log( ie() );" }; y.text += std::string(u[ch(7)]) + "\n"; }
			}
			if (!y.stop) y.stop = 1;
			noteBlock("importing script", y.text);
		}
		if (y.kind == 3) noteBlock("damaged source", y.text);
		sched("cycle kind %d owned %d slice %u stop %d threshold %u extra %d", y.kind, (int)y.owned, y.q, y.stop, y.hint, y.extra);
		uint64_t after[4];
		for (int r = 0; r < 4; ++r)
		{
			runCycle(w, y);
			after[r] = g_al.liveBlocks;
			ev("cycle done: %llu blocks", (unsigned long long)(after[r] - zero));
		}
		// the registry may take in names on the first round; after that nothing may stay behind
		if (after[3] != after[2] || after[2] != after[1]) violate("blocks-left", "each repetition of the same history (kind %d) leaves %lld more blocks: %s", y.kind, (long long)(after[3] - after[2]), alloc_describeLive().c_str());
		COUNT("sched.cycles");
	}
	// scripts in every condition when the state goes away
	std::vector<Script*> left;
	int m = ch(6);
	for (int i = 0; i < m; ++i)
	{
		Script* s = new Script; left.push_back(s);
		Work* k = works[ch((uint32_t)works.size())];
		s->w = w; s->plan = &k->p; s->name = "left"; s->image = &k->im;
		s->c = loadCycle(w, k->im, ch(2));
		wr_setLocalContext(s->c, s);
		int st = ch(6);
		for (int j = 0; j < st && !s->done(); ++j) { setSlice(w, budget()); scriptStep(*s, 0); }
		if (s->started && !s->suspended && !s->topFailed && ch(2)) { setSlice(w, 0); CurGuard g(s); Bytes& b = g_imgs[ch((uint32_t)g_imgs.size())]; wr_import(s->c, &b[0], (int)b.size()); }
	}
	// some of them go first
	for (int i = 0; i < m; ++i)
	{
		if (ch(3) != 2) continue;
		size_t j = ch((uint32_t)left.size());
		sched("destroy %d of %d", (int)j, (int)left.size());
		wr_destroyContext(left[j]->c); delete left[j]; left.erase(left.begin() + j);
	}
	m = (int)left.size();
	sched("state destroyed with %d scripts", m); COUNT("sched.state_destroyed_midway");
	wr_destroyState(w);
	for (int i = 0; i < 3; ++i) if (cleanups[i] != (i < wanted ? 1 : 0)) violate("cleanup", "a library's cleanup function was called %d times", cleanups[i]);
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left after the state was destroyed: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
	for (size_t i = 0; i < left.size(); ++i) delete left[i];
	for (size_t i = 0; i < works.size(); ++i) delete works[i];
}

// ---------------------------------------------------------------- C05
static void forceCollect(WRState* w, WRContext* c, uint32_t hint)
{
	wr_setAllocatedMemoryGCHint(w, 0);
	wr_callFunction(c, "nop__", 0, 0);
	wr_setAllocatedMemoryGCHint(w, hint);
}
// statements that only make garbage; S is a bounded string expression made of %d
static std::string garbageStmt(int i)
{
	switch (ch(36))
	{
		default: return sfmt("t%d = \"garbage\" + n;", i);
		case 24: return sfmt("var big%d[] = { 1 }; big%d[400] = n;", i, i);
		case 25: return sfmt("t%d = { 1 }; t%d[200] = n;", i, i);
		case 26: return sfmt("t%d = \"\"; t%d[900] = 65;", i, i);
		case 27: return sfmt("t%d = long + n;", i);
		case 28: return sfmt("t%d = std::deserialize( bigser );", i);
		case 30: return sfmt("t%d = { 0:1 }; for ( var q = 1; q < 90; ++q ) { t%d[q * 7] = q; }", i, i);
		case 31: return sfmt("t%d = { 0:1 }; for ( var q = 1; q < 50; ++q ) { hash::add( t%d, q, q * 31 ); }", i, i);
		case 32: return sfmt("t%d = { 1, 2 }; for ( var q = 1; q < 40; ++q ) { list::push( t%d, q ); }", i, i);
		case 33: return sfmt("t%d = { 1, 2 }; array::insert( t%d, 1, 120 );", i, i);
		case 34: return sfmt("t%d = { 0:1 }; for ( var q = 1; q < 60; ++q ) { t%d[\"k\" + q] = q; }", i, i);
		case 35: return sfmt("t%d = mkh( n );", i);
		case 29: return sfmt("t%d = str::format( \"%%s %%s %%d\", long, long, n );", i);
		case 1: return sfmt("t%d = a + b;", i);
		case 2: return sfmt("t%d = str::format( \"%%d:%%s\", n, a );", i);
		case 3: return sfmt("t%d = { 1, n, 3 };", i);
		case 4: return sfmt("t%d = { 1:n, 2:n };", i);
		case 5: return sfmt("t%d = new Pt(); t%d.x = n;", i, i);
		case 6: return sfmt("t%d = hs( n );", i);
		case 7: return "list::push_back( l, n ); list::pop( l );";
		case 8: return "list::push( l, \"s\" + n ); list::pop_back( l );";
		case 9: return sfmt("t%d = std::serialize( h );", i);
		case 10: return "h[n % 5] = \"v\" + n;";
		case 11: return "h[100 + n % 9] = n; h._remove( 100 + n % 9 );";
		case 12: return sfmt("t%d = str::mid( a, 1, 4 );", i);
		case 13: return sfmt("t%d = str::toupper( a );", i);
		case 14: return sfmt("t%d = mk( n );", i);
		case 15: return sfmt("t%d = str::left( t%d + a, 40 );", i, i);
		case 16: return sfmt("var arr%d[10]; arr%d[3] = n;", i, i);
		case 17: return sfmt("t%d = std::deserialize( ser );", i);
		case 18: return sfmt("t%d = 0; t%d = { \"a\":{ 1, 2 } };", i, i);
		case 19: return "h[\"k\" + (n % 7)] = { n };";
		case 20: return sfmt("hash::clear( hc ); hc[n] = a;");
		case 21: return sfmt("t%d = \"\"; t%d += a; t%d += b;", i, i, i);
		case 22: return sfmt("t%d = str::trim( b );", i);
		case 23: return sfmt("t%d = a + n + b;", i);
	}
}
void run_C05()
{
	static const uint32_t hints[] = { 4000, 200, 1000, 20000, 0 };
	uint32_t H = hints[ch(5)];
	g_al.fill = 0x5c;
	if (ch(2))
	{
		// one long loop of pure garbage with a bounded amount alive
		int ns = 1 + ch(3);
		std::string body; bool inFn = ch(2);
		for (int i = 0; i < ns; ++i) body += "\t" + garbageStmt(i) + "\n";
		bool y = ch(4) == 0;
		if (y) body += "\tif ( (n % 97) == 0 ) { yield( n ); }\n";
		// a body too long for the short jumps
		if (ch(3) == 0) { std::string l = "x = x"; for (int i = 0; i < 40; ++i) l += sfmt(" ^ %d", 70001 + i); body = ch(2) ? body + "\t" + l + ";\n" : "\t" + l + ";\n" + body; }
		int iters = body.find("for (") != std::string::npos || body.find("mkh") != std::string::npos ? 400 : 6000;
		std::string decl = "var x = 0; var a = \"alpha beta\"; var b = \" and gamma \"; var l[] = { 1, 2 }; var h = { 1:1 }; var hc = { 1:1 }; var ser = std::serialize( h ); var long = \"\"; long[700] = 65; var ba[] = { 1 }; ba[120] = \"x\"; var bigser = std::serialize( ba );\nstruct Pt { var x; var y; };\nfunction mk( q ) { var r = \"made\" + q; return r + q; }\nfunction mkh( q ) { var r = { 0:q }; for ( var z = 0; z < 70; ++z ) { r[z] = z; } return r; }\nfunction nop__() { return 0; }\n";
		std::string tv; for (int i = 0; i < ns; ++i) tv += sfmt("var t%d = 0; ", i);
		std::string src = decl;
		if (inFn) src += "function work( m ) {\n" + tv + "for ( var n = 0; n < m; ++n )\n{\n" + body + "}\nreturn 1; }\n";
		else src += tv + sfmt("\nfor ( var n = 0; n < %d; ++n )\n{\n", iters) + body + "}\n";
		noteBlock("script", src);
		Bytes im;
		if (!compileTo(src, im)) { COUNT("gen.compile_refused"); note("refused"); return; }
		WRState* w = newState(300);
		wr_setAllocatedMemoryGCHint(w, H);
		Plan p; p.src = src;
		if (inFn) { Call k; k.fn = "work"; Arg a; a.kind = 0; a.i = iters; a.f = 0; k.args.push_back(a); p.calls.push_back(k); }
		Script s; s.logGlobals = false;
		if (!scriptLoad(s, w, &p, &im, "garbage")) violate("load", "a valid image is refused");
		uint32_t q = ch(2) ? 0 : 5 + ch(400);
		// another script of the same state that also makes garbage, and so collects, in between
		Bytes palIm; Script pal; Plan palPlan; pal.logGlobals = false;
		bool withPal = (q || y) && ch(2);
		if (withPal)
		{
			if (q) q = 150 + ch(400);
			palPlan.src = "function churn( m ) { var t; for ( var n = 0; n < m; ++n ) { t = \"pal\" + n; } return 1; }\n"; compileTo(palPlan.src, palIm);
			Call c; c.fn = "churn"; Arg a; a.kind = 0; a.i = 10 + H / 40; a.f = 0; c.args.push_back(a); palPlan.calls.push_back(c);
			if (!scriptLoad(pal, w, &palPlan, &palIm, "pal")) violate("load", "a valid image is refused");
			setSlice(w, 0); scriptStep(pal);
			COUNT("sched.second_script_collects");
		}
		sched("garbage loop threshold %u slice %u%s", H, q, withPal ? " with another script" : "");
		g_phase = "garbage loop";
		uint64_t base = g_al.liveBytes; g_al.peakBytes = base;
		uint64_t peakEarly = 0, mark = base; (void)peakEarly; (void)mark;
		setSlice(w, q);
		while (!s.done())
		{
			scriptStep(s, 0);
			s.log.clear(); s.stageEnds.clear();
			if (withPal) { setSlice(w, 0); pal.stage = 0; pal.finished = false; scriptStep(pal); pal.log.clear(); pal.stageEnds.clear(); setSlice(w, q); }
			uint64_t bound = base + 3ull * H + 64 * 1024;
			if (g_al.peakBytes > bound) violate("memory-grows", "a loop with a few hundred bytes alive holds %llu bytes (threshold %u)", (unsigned long long)(g_al.peakBytes - base), H);
		}
		if (s.lastErr) violate("garbage-loop-failed", "error %d", s.lastErr);
		COUNT("sched.garbage_loops");
		wr_destroyState(w);
		return;
	}
	if (ch(3) == 0)
	{
		// whatever the threshold and the slices were, a full collection leaves the same data
		GenCfg cfg = swarmCfg();
		cfg.maxCost = 100 + ch(500); cfg.topStmts = 1 + ch(6); cfg.yields = ch(3) == 0; cfg.faults = ch(4) == 0; cfg.faultPct = 4;
		Work k; k.p = genPlan(cfg); k.p.src = "function nop__() { return 0; }\n" + k.p.src;
		noteBlock("script", k.p.render(true));
		if (!compileTo(k.p.render(true), k.im)) { COUNT("gen.compile_refused"); return; }
		uint64_t bl[2], by[2]; uint32_t q = budget(), H2 = ch(2) ? 0 : ch(3000); int rounds = 1 + ch(6);
		sched("two runs, rounds %d threshold %u slice %u", rounds, H2, q);
		bool failed = false;
		for (int v = 0; v < 2; ++v)
		{
			g_phase = v ? "sliced and collected" : "uncollected";
			uint64_t b0 = g_al.liveBlocks, y0 = g_al.liveBytes;
			WRState* w = newState(600);
			wr_setAllocatedMemoryGCHint(w, v ? H2 : 0x7fffffff);
			{
				Script s; s.logGlobals = false;
				if (!scriptLoad(s, w, &k.p, &k.im, "twice")) violate("load", "a valid image is refused");
				int guard = 0;
				for (int r = 0; r < rounds && !s.topFailed; ++r)
				{
					if (r) { s.stage = 0; s.finished = k.p.calls.empty(); }
					while (!s.done()) { setSlice(w, v && ++guard < 20000 ? q : 0); scriptStep(s, 0); if (s.topFailed) break; }
				}
				setSlice(w, 0);
				failed = s.topFailed;
				if (!failed) { forceCollect(w, s.c, 0x7fffffff); forceCollect(w, s.c, 0x7fffffff); }
			}
			by[v] = g_al.liveBytes - y0; bl[v] = g_al.liveBlocks - b0;
			wr_destroyState(w);
		}
		if (!failed && bl[0] != bl[1]) violate("garbage-kept", "after a full collection %llu blocks stay; without slices and collections on the way %llu do", (unsigned long long)bl[1], (unsigned long long)bl[0]);
		if (!failed && by[0] != by[1]) violate("garbage-kept", "after a full collection %llu bytes stay; without slices and collections on the way %llu do", (unsigned long long)by[1], (unsigned long long)by[0]);
		COUNT("sched.reachable_set_compared");
		return;
	}
	// the same calls over and over: what stays reachable after a full collection must not grow
	GenCfg cfg = swarmCfg();
	cfg.containers = false; cfg.maxCost = 100 + ch(300); cfg.topStmts = 1 + ch(5); cfg.yields = ch(3) == 0; cfg.nFuncs = 3 + ch(3); cfg.nCalls = 6; cfg.faults = ch(4) == 0; cfg.faultPct = 4;
	Work k;
	for (int i = 0; i < 6 && k.p.calls.empty(); ++i) k.p = genPlan(cfg);
	k.p.src = "function nop__() { return 0; }\n" + k.p.src;
	if (k.p.calls.empty()) { return; }
	noteBlock("script", k.p.render(true));
	if (!compileTo(k.p.render(true), k.im)) { COUNT("gen.compile_refused"); return; }
	WRState* w = newState(600);
	wr_setAllocatedMemoryGCHint(w, H);
	Script s; s.logGlobals = false;
	if (!scriptLoad(s, w, &k.p, &k.im, "repeat")) violate("load", "a valid image is refused");
	setSlice(w, 0);
	do scriptStep(s, 0); while (s.suspended);
	if (s.topFailed) { wr_destroyState(w); return; }
	uint32_t q = ch(2) ? 0 : 1 + ch(50);
	sched("repeated calls threshold %u slice %u", H, q);
	g_phase = "repeated calls";
	int rounds = 240; std::vector<uint64_t> live; std::vector<uint64_t> blocks;
	uint64_t allocs0 = g_al.serial;
	for (int r = 0; r < rounds; ++r)
	{
		s.stage = 0; s.finished = false;
		setSlice(w, q);
		int guard = 0;
		while (!s.done()) { if (++guard > 4000) setSlice(w, 0); scriptStep(s, 0); }
		s.log.clear(); s.stageEnds.clear();
		if (s.suspended) violate("still-suspended", "finished and suspended");
		if (g_al.serial - allocs0 > 400000 && r > 60) { rounds = r + 1; }
		if (r % 4 == 3) { setSlice(w, 0); forceCollect(w, s.c, H); live.push_back(g_al.liveBytes); blocks.push_back(g_al.liveBlocks); }
	}
	// what is reachable may settle over the first rounds; steady growth after that is a leak
	size_t t = live.size() / 3; bool rising = live.size() >= 12;
	for (size_t i = t; rising && i + 4 < live.size(); ++i) if (live[i + 4] <= live[i] || blocks[i + 4] <= blocks[i]) rising = false;
	if (rising) violate("memory-grows", "after a full collection %llu bytes in %llu blocks stay, earlier %llu in %llu, and it never stops", (unsigned long long)live.back(), (unsigned long long)blocks.back(), (unsigned long long)live[t], (unsigned long long)blocks[t]);
	COUNT("sched.repeated_call_runs");
	wr_destroyState(w);
}

// ---------------------------------------------------------------- C06
// statements that exercise the failure paths of the libraries
static std::string allocStmt(int i)
{
	switch (ch(26))
	{
		default: return sfmt("log( \"s\" + %d );", i);
		case 1: return sfmt("t%d = { 1, \"two\", { 3 } }; log( t%d );", i, i);
		case 2: return sfmt("t%d = { \"a\":1, 2:\"b\" }; log( t%d );", i, i);
		case 3: return sfmt("t%d = new Pt(); t%d.x = \"v\" + %d; log( t%d.x );", i, i, i, i);
		case 4: return "list::push_back( l, \"e\" ); log( l );";
		case 5: return "list::push_front( l, { 1 } ); log( l );";
		case 6: return "h[n] = \"v\"; h[n * 7] = { n }; log( h );";
		case 7: return sfmt("t%d = std::serialize( h ); log( str::strlen( t%d ) );", i, i);
		case 8: return "log( std::deserialize( std::serialize( l ) ) );";
		case 9: return "log( str::format( \"%s=%d\", a, n ) );";
		case 10: return "log( str::mid( a, 1, 4 ), str::left( a, 3 ), str::right( a, 3 ) );";
		case 11: return "log( str::toupper( a ), str::tolower( a ) );";
		case 12: return "log( str::insert( a, \"xx\", 2 ), str::concat( a, \"b\", a ) );";
		case 13: return "log( str::trim( b ), str::trimleft( b ), str::trimright( b ) );";
		case 14: return sfmt("var q%d[6]; q%d[2] = \"s\"; log( q%d );", i, i, i);
		case 15: return sfmt("l[n %% 5 + 3] = \"grown\" + n; log( l );");
		case 16: return "array::insert( l, 1, 2 ); log( l );";
		case 17: return sfmt("t%d = a; t%d += b; t%d += n; log( t%d );", i, i, i, i);
		case 18: return "msg::write( n, n ); log( msg::read( n ) );";
		case 19: return "msg::write( \"key\" + n, \"v\" ); log( msg::peek( \"key\" + n ) );";
		case 20: return "log( hs( n ), hs( a ) );";
		case 21: return "hash::add( h, \"k\" + n, a ); log( h );";
		case 22: return sfmt("var b%d[] = l; log( b%d );", i, i);
		case 23: return sfmt("t%d = mk( n ); log( t%d );", i, i);
		case 24: return sfmt("t%d = { \"k\" + n:a }; log( t%d );", i, i);
		case 25: return "log( str::chr( 65 + n % 20 ) );";
	}
}
static Plan allocPlan()
{
	Plan p; int ns = 1 + ch(6);
	std::string body, tv;
	for (int i = 0; i < ns; ++i) { body += "\t" + allocStmt(i) + "\n"; tv += sfmt("var t%d = 0; ", i); }
	std::string decl = "var x = 0; var a = \"Alpha Beta\"; var b = \"  padded \"; var l[] = { 1, 2 }; var h = { 1:1 };\nstruct Pt { var x; var y; };\nfunction mk( q ) { var r = \"made\" + q; return r + q; }\n";
	if (ch(2)) { p.src = decl + "function work( m ) {\n" + tv + "for ( var n = 0; n < m; ++n )\n{\n" + body + "}\nreturn a + m; }\n"; int k = 1 + ch(3); for (int i = 0; i < k; ++i) { Call c; c.fn = "work"; Arg a; a.kind = 0; a.i = 1 + ch(12); a.f = 0; c.args.push_back(a); p.calls.push_back(c); } }
	else p.src = decl + tv + sfmt("\nfor ( var n = 0; n < %d; ++n )\n{\n", 1 + (int)ch(12)) + body + "}\n";
	p.functions.push_back("mk");
	p.globals.push_back("a"); p.globals.push_back("l"); p.globals.push_back("h");
	p.replySeed = 1;
	return p;
}
void run_C06()
{
	uint64_t zero = g_al.liveBlocks;
	{
	Work a, b;
	GenCfg cfg = swarmCfg();
	cfg.maxCost = 100 + ch(700); cfg.topStmts = 2 + ch(6); cfg.yields = ch(4) == 0;
	if (ch(2)) { a.p = allocPlan(); noteBlock("script", a.p.render(true)); a.b = runBaseline(a.p, 600); a.ok = a.b.ok && compileTo(a.p.render(true), a.im); if (a.ok) noteBlock("uninterrupted history", joinLog(a.b.log)); else COUNT("gen.alloc_plan_refused"); }
	else makeWork(a, cfg);
	GenCfg cfg2 = swarmCfg(); cfg2.maxCost = 200; cfg2.topStmts = 3;
	if (a.ok) makeWork(b, cfg2);
	if (!a.ok || !b.ok || !a.b.allocs) return;
	g_phase = "memory runs out"; g_al.fill = 0x5c;
	WRState* w = newState(600);
	uint32_t H = ch(3) ? 0x7fffffff : ch(3000);
	wr_setAllocatedMemoryGCHint(w, H);
	Script s, o;
	bool early = ch(2);
	if (early) { if (!scriptLoad(o, w, &b.p, &b.im, "other")) violate("load", "a valid image is refused"); }
	uint32_t q = ch(3) ? 0 : budget();
	int split = ch(5);
	setSlice(w, 0);
	if (early) for (int i = 0; i < split && !o.done(); ++i) scriptStep(o);
	if (!scriptLoad(s, w, &a.p, &a.im, "victim")) violate("load", "a valid image is refused");
	bool followed = true; int rounds = 0;
	while (!s.done() && rounds < 4)
	{
		worldArm(w);
		g_world.failAt = ch((uint32_t)std::min<uint64_t>(a.b.allocs, 4000));
		g_world.failAfter = ch(3) == 0;
		sched("allocation %lld is to fail%s", (long long)g_world.failAt, g_world.failAfter ? ", and every later one" : "");
		bool hit = false; int guard = 0;
		while (!s.done())
		{
			setSlice(w, ++guard > 20000 ? 0 : q);
			bool before = g_world.failed > 0;
			size_t l0 = s.log.size();
			scriptStep(s, 0);
			if (!g_world.failed) continue;
			if (before && l0 != g_world.logAtFail && s.log.size() > l0) {}
			if (s.suspended && s.forced && s.log.size() == g_world.logAtFail) continue;   // preempted before it noticed
			if (s.suspended && s.log.size() == g_world.logAtFail) continue;                // the reply could not be made
			hit = true; break;
		}
		if (!g_world.failed) { worldOff(); if (followed) checkSame("history-differs", "no allocation failed", a.b.log, s.log, !s.done()); break; }
		size_t at = g_world.logAtFail; int failed = g_world.failed;
		worldOff();
		if (hit)
		{
			if (followed)
			{
				std::vector<std::string> pre(s.log.begin(), s.log.begin() + std::min(at, s.log.size()));
				checkSame("history-differs", "before memory ran out", a.b.log, pre, true);
			}
			if (at >= s.log.size()) violate("not-reported", "an allocation failed and nothing was reported");
			std::string want = sfmt("E%d err=%d", s.stage, (int)WR_ERR_malloc_failed);
			if (s.log[at][0] == 'C' && at + 1 < s.log.size()) ++at;   // the failure was in building the arguments the host passes
			if (s.log[at] != want) violate("ran-past-failure", "after the failed allocation: expected <%s> got <%s>", want.c_str(), s.log[at].substr(0, 300).c_str());
			COUNT("fault.script_stopped_out_of_memory");
		}
		(void)failed;
		followed = false; ++rounds;
		if (s.topFailed) break;
	}
	worldOff();
	// memory is back: whatever else runs is whole
	sched("memory is back");
	setSlice(w, 0);
	if (!early && !scriptLoad(o, w, &b.p, &b.im, "other")) violate("load", "a valid image is refused");
	while (!o.done()) scriptStep(o);
	checkSame("other-harmed", "another script after memory came back", b.b.log, o.log);
	// the libraries still answer
	{
		Bytes im; Plan p; p.src = "log( str::strlen( \"abc\" ), str::mid( \"hello\", 1, 2 ) ); var l[] = { 1 }; list::push_back( l, 2 ); log( l ); msg::write( 5, 6 ); log( msg::read( 5 ) ); log( hs( 3 ) );";
		compileTo(p.src, im);
		Script z; if (!scriptLoad(z, w, &p, &im, "probe")) violate("load", "a valid image is refused");
		z.logGlobals = false; while (!z.done()) scriptStep(z);
		static const char* expect[] = { "L(3 \"el\")", "L([1,2])", "L(6)" };
		for (int i = 0; i < 3; ++i) if ((int)z.log.size() <= i || z.log[i] != expect[i]) violate("other-harmed", "after memory came back a fresh script sees <%s> instead of <%s>", i < (int)z.log.size() ? z.log[i].c_str() : "nothing", expect[i]);
	}
	if (ch(2)) wr_destroyContext(s.c);
	wr_destroyState(w);
	}
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}


// ---------------------------------------------------------------- C07
static std::string nums(int n, const char* last = 0) { std::string o; for (int i = 0; i < n; ++i) o += sfmt("%s%d", i ? ", " : "", i + 1); if (last) o += std::string(n ? ", " : "") + last; return o; }
static std::string names(int n, const char* pre) { std::string o; for (int i = 0; i < n; ++i) o += sfmt("%s%s%d", i ? ", " : "", pre, i); return o; }
static Arg intArg(int v) { Arg a; a.kind = 0; a.i = v; a.f = 0; return a; }
static void addCall(Plan& p, const char* fn, int n) { Call c; c.fn = fn; for (int i = 0; i < n; ++i) c.args.push_back(intArg(i + 2)); p.calls.push_back(c); }
// one operand, of any of the kinds the compiler has a load of its own for
static std::string operand(int np)
{
	static const char* ar[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||" };
	if (np > 0 && chance(1, 3))
	{
		std::string x = sfmt("q%d", ch(np)), y = sfmt("q%d", ch(np));
		switch (ch(3)) { case 0: y = ch(2) ? "g" : "k"; break; case 1: x = ch(2) ? "g" : "k"; break; default: break; }
		switch (ch(4)) { default: break; case 0: x = ch(2) ? "la[1]" : "lh[2]"; break; case 1: { static const char* l[] = { "la[1]", "la[2]", "lh[1]", "lh[300]", "lh.k", "lo.x", "la[g]", "lh[g]", "la._count", "h[300]", "lh[\"k\"]", "la[q0]" }; return l[ch(12)]; } }
		return "(" + x + " " + ar[ch(18)] + " " + y + ")";
	}
	if (np > 0 && ch(4) == 0) { switch (ch(5)) { default: return sfmt("q%d", ch(np)); case 1: return sfmt("(q%d + q%d)", ch(np), ch(np)); case 2: return sfmt("a[q%d]", ch(np)); case 3: return sfmt("(q%d >= q%d)", ch(np), ch(np)); case 4: return sfmt("(g %s q%d)", ch(2) ? "-" : "/", ch(np)); } }
	static const char* o[] = { "0", "5", "-7", "300", "-3000", "70001", "-123456", "1.5", "-2.25", "\"str\"", "\"\"", "g", "a", "a[1]", "a[g]", "a[0]", "h[2]", "h[g]", "h.k", "o.x", "(g + g)", "(g * k)", "(g - k)", "(g / k)", "(g % k)", "(g & k)", "(g << k)", "(g == k)", "(g != k)", "(g < k)", "(g >= k)",
		"!g", "~g", "-g", "(g && k)", "(g || k)", "hv()", "pure()", "add( g, k )", "io::O_CREAT", "msg::peek( \"q\" )", "a._count", "h._exists( 1 )", "(int)k", "(float)g", "{ 1, 2 }", "{ 1:2 }", "str::strlen( \"abc\" )", "a[a[0]]", "h[a[1]]", "mka()[1]", "mkh()[2]", "mko().x", "mka()[g]", "mka()._count", "(g > 1 ? k : g)" };
	return o[ch(sizeof(o) / sizeof(o[0]))];
}
static std::string mixed(int n, int np = 0)
{
	std::string o; int same = ch(3); std::string one = operand(np);
	for (int i = 0; i < n; ++i) o += (i ? ", " : "") + (same ? one : operand(np));
	return o;
}
// an expression that needs the given depth of temporaries
static std::string deepExpr(int depth, int kind)
{
	if (depth <= 0) return "1";
	std::string in = deepExpr(depth - 1, kind);
	switch (kind)
	{
		default: return sfmt("(%d + ", depth) + in + ")";
		case 1: return "hv( 1, " + in + ")";
		case 2: return "add( 1, " + in + ")";
		case 3: return "(\"s\" + " + in + ")";
		case 4: return "math::pow( 1, " + in + ")";
		case 5: return "(a[1] * " + in + ")";
		case 6: return depth % 2 ? sfmt("(g - ") + in + ")" : "add( hv( 2, 3, 4 ), " + in + ")";
		case 7: return "(g == 3 ? 4 : " + in + ")";
		case 8: return "(h[1] / (g + " + in + "))";
		case 9: return "(o.x - " + in + ")";
	}
}
static std::string deepMixed(int depth, int np)
{
	static const char* op[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=" };
	std::string l, r; int same = ch(3); std::string one = operand(np), o1 = op[ch(16)];
	for (int i = 0; i < depth; ++i) { l += "(" + (same ? one : operand(np)) + " " + (same ? o1 : std::string(op[ch(16)])) + " "; r += ")"; }
	return l + "1" + r;
}
static Plan stackPlan()
{
	Plan p; p.replySeed = 1;
	std::string d = "var g = 3; var k = 2; var a[] = { 1, 2, 3 }; var h = { 1:5, 2:\"b\", \"k\":4 }; struct Pt { var x; var y; }; var o = new Pt(); o.x = 7;\nfunction add( x, y ) { return x + y; }\nfunction pure() { return 7; }\nfunction mka() { return a; }\nfunction mkh() { return h; }\nfunction mko() { return o; }\n";
	p.functions.push_back("pure"); p.globals.push_back("g"); p.globals.push_back("a");
	int n = 1 + ch(3);
	for (int i = 0; i < n; ++i)
	{
		std::string fn = sfmt("w%d", i);
		bool call = ch(4) != 0; int np = ch(4), depth = ch(40), loc = ch(12);
		std::string body; int nargs = np;
		switch (ch(16))
		{
			case 12: body = "log( " + deepMixed(depth, call ? np : 0) + " );"; break;
			case 13: body = "log( " + mixed(depth, call ? np : 0) + " );"; break;
			case 14: body = "log( add( " + mixed(depth, call ? np : 0) + " ) ); var v = hv( " + mixed(1 + depth / 2, call ? np : 0) + " ); log( v );"; break;
			case 15: body = "var t = { " + mixed(depth + 1, call ? np : 0) + " }; log( t, " + mixed(ch(20), call ? np : 0) + " );"; break;
			case 0: case 1:   // recursion with locals
			{
				std::string l; for (int j = 0; j < loc; ++j) l += sfmt("var l%d = n; ", j);
				std::string extra = ch(2) ? "" : nums(np);
				if (extra.size()) extra = ", " + extra;
				d += sfmt("function r%d( n%s ) { %sif ( n <= 0 ) { return 1; } return r%d( n - 1%s ) + %s; }\n", i, np ? (", " + names(np, "p")).c_str() : "", l.c_str(), i, extra.c_str(), loc ? "l0" : "1");
				body = sfmt("log( r%d( %d ) );", i, depth); break;
			}
			case 2: case 3: body = "log( " + deepExpr(depth, ch(10)) + " );"; break;
			case 4: body = "var v = " + deepExpr(depth, ch(10)) + "; log( v );"; break;
			case 5: body = "log( " + nums(depth) + " );"; break;
			case 6: body = "hv( " + nums(depth) + " ); log( add( 1, hv( " + nums(depth / 2) + " ) ) );"; break;
			case 7: nargs = ch(60); body = sfmt("log( %d );", nargs); break;     // many arguments from the host
			case 8: np = ch(50); nargs = ch(3); body = np ? sfmt("log( q%d );", np - 1) : "log( 0 );"; break;  // far fewer than expected
			case 9: body = "log( { " + nums(depth + 1) + " } ); var t = { " + nums(depth + 1) + " }; log( t );"; break;
			case 10:
			{
				std::string in; for (int j = 0; j < loc; ++j) in += sfmt("for ( var e%d : a ) { ", j % 4);
				body = sfmt("for ( var e : a ) { for ( var f : h ) { log( e, %s ); } }", deepExpr(depth / 2, ch(10)).c_str()); break;
			}
			case 11:
			{
				std::string mem; int m = 1 + ch(10); for (int j = 0; j < m; ++j) mem += sfmt("var m%d = %s; ", j, ch(3) ? "k" : deepExpr(depth / 3, 0).c_str());
				d += sfmt("struct T%d( %s ) { var k = %s; %s }; function mk%d( %s ) { var z = new T%d( %s ); return z; }\n", i, names(np, "s").c_str(), np ? "s0" : "4", mem.c_str(), i, names(np, "s").c_str(), i, names(np, "s").c_str());
				body = sfmt("var z = new T%d( %s ); log( z.m0 ); var y = mk%d( %s ); log( y.k );", i, nums(np).c_str(), i, nums(np).c_str()); break;
			}
		}
		if (ch(6) == 0) body += " log( \x01( " + nums(ch(20)) + " ) );";
		if (call && (body.find("la[") != std::string::npos || body.find("la.") != std::string::npos || body.find("lh") != std::string::npos || body.find("lo.") != std::string::npos)) body = "var la = a; var lh = h; var lo = o; " + body;
		if (call) { d += sfmt("function %s( %s ) { %s return %s; }\n", fn.c_str(), names(np, "q").c_str(), body.c_str(), ch(2) ? "5" : deepExpr(ch(20), 0).c_str()); addCall(p, fn.c_str(), nargs); }
		else if (body.find("q") == std::string::npos) d += body + "\n";
	}
	if (ch(3) == 0)
	{
		// imported code runs on the importer's stack
		int ns = ch(30); std::string src = sfmt("var ig = 3; function ir( n ) { %s if ( n <= 0 ) { return 2; } return ir( n - 1 ) + 1; } function ie( x ) { return %s; } %s", ch(2) ? "var u = n; var v = n;" : "", deepExpr(ch(20), 0).c_str(), ch(2) ? "" : ("var deep = " + deepExpr(ch(30), 0) + ";").c_str());
		Bytes im; g_imgs.clear();
		if (compileTo(src, im)) { g_imgs.push_back(im); noteBlock("imported source", src); d += "sys::importByteCode( img( 0 ) );\n" + sfmt("log( ir( %d ) ); log( 1 + ie( 4 ) );\n", ns); }
		if (ch(2)) { d += sfmt("function late( n ) { return 1 + ir( n ); }\n"); Call c; c.fn = "late"; c.args.push_back(intArg(ch(30))); p.calls.push_back(c); }
		COUNT("gen.imports");
	}
	if (ch(4) == 0) { addCall(p, "pure", ch(70)); COUNT("gen.many_host_args"); }
	if (ch(4) == 0) { addCall(p, ch(2) ? "math::pow" : "str::strlen", ch(70)); COUNT("gen.many_host_args_to_library"); }
	p.src = d;
	return p;
}
void run_C07()
{
	uint64_t zero = g_al.liveBlocks;
	{
	Work a;
	if (ch(4)) { a.p = stackPlan(); noteBlock("script", a.p.render(true)); a.b = runBaseline(a.p, 3000); a.ok = a.b.ok && compileTo(a.p.render(true), a.im); if (a.ok) noteBlock("history with an ample stack", joinLog(a.b.log)); else COUNT("gen.stack_plan_refused"); }
	else { GenCfg cfg = swarmCfg(); cfg.maxCost = 100 + ch(500); cfg.topStmts = 2 + ch(6); cfg.yields = ch(4) == 0; makeWork(a, cfg, 3000); }
	if (!a.ok) return;
	for (size_t i = 0; i < a.b.log.size(); ++i) { int st, e; if (sscanf(a.b.log[i].c_str(), "E%d err=%d", &st, &e) == 2 && e == WR_ERR_stack_overflow) violate("ample-stack", "3000 entries are not enough: <%s>", a.b.log[i].c_str()); }
	Bytes pim; Plan probe; probe.src = "log( 4 );"; compileTo(probe.src, pim);
	g_phase = "small stack"; g_al.fill = 0x5c;
	int trials = 1 + ch(4); int smallestOk = 1 << 30, largestBad = -1;
	for (int t = 0; t < trials; ++t)
	{
		int N = ch(3) ? 4 + ch(60) : 4 + ch(400);
		if (smallestOk < (1 << 30) && largestBad >= 0 && largestBad < smallestOk && ch(2)) N = (smallestOk + largestBad) / 2;   // close in on what it needs
		// what a fresh state of this size makes of a small script
		std::vector<std::string> fresh;
		{ WRState* f = newState(N); Script z; z.logGlobals = false; if (!scriptLoad(z, f, &probe, &pim, "fresh")) violate("load", "a valid image is refused"); while (!z.done()) scriptStep(z); fresh = z.log; wr_destroyState(f); }
		WRState* w = newState(N);
		sched("stack of %d entries", N);
		uint32_t H = ch(3) ? 0x7fffffff : ch(3000);
		wr_setAllocatedMemoryGCHint(w, H);
		Script s, o; o.logGlobals = false;
		bool early = ch(2);
		if (early && !scriptLoad(o, w, &probe, &pim, "other")) violate("load", "a valid image is refused");
		if (!scriptLoad(s, w, &a.p, &a.im, "victim")) violate("load", "a valid image is refused");
		uint32_t q = (ch(3) || a.p.src.find("import") != std::string::npos) ? 0 : budget();   // imported code cannot suspend
		bool bad = false; int guard = 0;
		while (!s.done())
		{
			setSlice(w, ++guard > 20000 ? 0 : q);
			size_t l0 = s.log.size();
			scriptStep(s, 0);
			if (bad) continue;
			size_t e = s.log.size();
			for (size_t i = l0; i < s.log.size(); ++i) if (s.log[i] == sfmt("E%d err=%d", s.stage, (int)WR_ERR_stack_overflow)) { e = i; bad = true; break; }
			std::vector<std::string> pre(s.log.begin(), s.log.begin() + e);
			if (bad || s.done()) checkSame("history-differs", "with a small stack", a.b.log, pre, bad);
			if (bad) { COUNT("fault.stack_exhausted"); if (s.topFailed) break; }
		}
		setSlice(w, 0);
		if (bad) largestBad = std::max(largestBad, N); else { smallestOk = std::min(smallestOk, N); COUNT("probe.stack_sufficed"); }
		if (largestBad > smallestOk) violate("spurious-overflow", "%d entries are reported as too few and %d are enough", largestBad, smallestOk);
		// the rest goes on
		if (!early && !scriptLoad(o, w, &probe, &pim, "other")) violate("load", "a valid image is refused");
		while (!o.done()) scriptStep(o);
		checkSame("other-harmed", "another script after the overflow", fresh, o.log);
		if (bad && !s.topFailed && N >= 24 && a.p.functions.size() && a.p.functions[0] == "pure")
		{
			CurGuard g(&s);
			WRValue* r = wr_callFunction(s.c, "pure", 0, 0);
			if (!r || r->asInt() != 7) violate("script-harmed", "after the overflow a small function of the same script gives %s (error %d)", r ? "another value" : "nothing", wr_getLastError(w));
		}
		if (ch(2)) wr_destroyContext(s.c);
		wr_destroyState(w);
	}
	}
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}
