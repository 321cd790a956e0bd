// Properties of data: message box, images, serialized values, imports, host-lent memory, time.
#include "world.h"
#include <map>
#include <sys/mman.h>

// ---------------------------------------------------------------- C11
// every operation reports itself to the host directly after it took place; the host holds the model
static std::map<uint32_t, uint32_t> g_box;
static int g_boxOps;
static uint32_t keyOf(WRValue const& v) { return v.getHash(); }
static void h_mb(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	if (argn < 4) return;
	int op = argv[0].asInt(); uint32_t k;
	std::string shown;
	if (argv[1].isString()) { char b[64]; const char* s = argv[1].asString(b, 63); k = wr_hashStr(s); shown = sfmt("\"%s\"", s); }
	else { k = (uint32_t)argv[1].asInt(); shown = sfmt("%d", argv[1].asInt()); }
	uint32_t arg = argv[2].isString() ? 0 : (uint32_t)argv[2].asInt();
	if (argv[2].isString()) { char b[64]; arg = wr_hashStr(argv[2].asString(b, 63)); }
	int r = argv[3].asInt();
	++g_boxOps;
	const char* who = g_cur ? g_cur->name : "?";
	std::map<uint32_t, uint32_t>::iterator i = g_box.find(k);
	switch (op)
	{
		case 0: g_box[k] = arg; ev("%s write %s = %u", who, shown.c_str(), arg); COUNT("sched.box_write"); break;
		case 1: case 2:
		{
			uint32_t want = i == g_box.end() ? 0 : i->second;
			ev("%s read%s %s -> %d", who, op == 2 ? "+clear" : "", shown.c_str(), r);
			if ((uint32_t)r != want) violate("wrong-value", "%s reads %s and gets %d, the last value written is %s", who, shown.c_str(), r, i == g_box.end() ? "none" : sfmt("%d", (int)want).c_str());
			if (op == 2 && i != g_box.end()) g_box.erase(i);
			COUNT(op == 2 ? "sched.box_read_clear" : "sched.box_read");
			break;
		}
		case 3: if (i != g_box.end()) g_box.erase(i); ev("%s clear %s", who, shown.c_str()); COUNT("sched.box_clear"); break;
		case 4:
			ev("%s peek %s -> %d", who, shown.c_str(), r);
			if (r != (i == g_box.end() ? 0 : 1)) violate("wrong-presence", "%s peeks at %s and gets %d", who, shown.c_str(), r);
			COUNT("sched.box_peek");
			break;
	}
}
static void h_bf(WRContext*, const WRValue* argv, const int, WRValue&, void*)
{
	ev("names %d %d %d %d constant %d", argv[0].asInt(), argv[1].asInt(), argv[2].asInt(), argv[3].asInt(), argv[4].asInt());
	if (argv[0].asInt() != 1 || argv[1].asInt() != 1 || argv[2].asInt() || argv[3].asInt()) violate("libraries-disturbed", "what is a function is answered %d %d %d %d", argv[0].asInt(), argv[1].asInt(), argv[2].asInt(), argv[3].asInt());
	if (argv[4].asInt() != 4711) violate("libraries-disturbed", "a constant reads %d", argv[4].asInt());
}
static int g_lateCalls; static bool g_boxNames;
static void h_late(WRContext*, const WRValue* argv, const int argn, WRValue& ret, void* usr) { ++g_lateCalls; wr_makeInt(&ret, (int)(intptr_t)usr + (argn ? argv[0].asInt() : 0)); }
static std::string boxKey(int range, bool dyn)
{
	// names registered with the state, as text and as the number they hash to
	static const char* nm[] = { "log", "hv", "mb", "str::mid", "math::abs", "hc::K", "late0", "late1", "nosuchfunction", "msg::write", "nokey", "list::push_back", "::n" };
	if (g_boxNames && !ch(5)) { const char* n = nm[ch(13)]; return ch(3) ? sfmt("\"%s\"", n) : sfmt("%d", (int)wr_hashStr(n)); }
	switch (ch(dyn ? 6 : 4))
	{
		default: return sfmt("%d", (int)ch(range));
		case 1: return sfmt("\"key%d\"", (int)ch(range));
		case 2: return sfmt("%d", -(int)ch(range) - 1);
		case 3: return sfmt("%d", (int)ch(range) * 7919 + 1000003);
		case 4: return sfmt("(n + %d)", (int)ch(range));
		case 5: return sfmt("(\"key\" + (n + %d))", (int)ch(range));
	}
}
static std::string boxStmt(int range, bool dyn)
{
	std::string k = boxKey(range, dyn), v;
	switch (ch(10))
	{
		case 0: case 1: case 2: case 3:
			v = ch(3) ? sfmt("%d", (int)ch(100000) - 500) : ch(2) ? sfmt("\"val%d\"", (int)ch(50)) : dyn ? std::string("(\"val\" + n)") : std::string("0");
			return "msg::write( " + k + ", " + v + " ); mb( 0, " + k + ", " + v + ", 0 );";
		case 4: case 5: return "mb( 1, " + k + ", 0, msg::read( " + k + " ) );";
		case 6: return "mb( 2, " + k + ", 0, msg::read( " + k + ", 1 ) );";
		case 7: return "msg::clear( " + k + " ); mb( 3, " + k + ", 0, 0 );";
		default: return "mb( 4, " + k + ", 0, msg::peek( " + k + " ) );";
	}
}
void run_C11()
{
	g_box.clear(); g_boxOps = 0; g_al.fill = 0x5c; g_boxNames = ch(2);
	int ns = 1 + ch(5), range = 1 << ch(11);
	std::vector<Plan> plans(ns); std::vector<Bytes> im(ns);
	for (int i = 0; i < ns; ++i)
	{
		std::string body; int n = 1 + ch(10);
		for (int j = 0; j < n; ++j)
		{
			body += "\t" + boxStmt(range, true) + "\n";
			if (ch(5) == 0) body += "\tlog( str::mid( \"hello\", 1, 2 ), math::abs( -4 ), hv( 1 ) );\n";
			if (g_boxNames && !ch(6)) body += "\tbf( sys::isFunction( \"hv\" ), sys::isFunction( \"str::mid\" ), sys::isFunction( \"nokey\" ), sys::isFunction( 3 ), hc::K );\n";
			if (ch(8) == 0) body += "\tyield( n );\n";
			if (ch(9) == 0) body += "\tif ( n > 2 ) { " + boxStmt(range, true) + " }\n";
		}
		std::string s;
		int it = 1 + ch(range > 64 ? 80 : 25), step = 1 + ch(5);
		if (ch(2)) s = sfmt("for ( var n = 0; n < %d; n += %d )\n{\n", it * step, step) + body + "}\n";
		else { s = sfmt("function go( m ) { for ( var n = 0; n < m; n += %d )\n{\n", step) + body + "}\nreturn 0; }\n"; int k = 1 + ch(3); for (int j = 0; j < k; ++j) { Call c; c.fn = "go"; Arg a; a.kind = 0; a.i = it * step; a.f = 0; c.args.push_back(a); plans[i].calls.push_back(c); } }
		if (ch(6) == 0) s += ch(2) ? "nosuchfunction( 1 );\n" : "sys::halt( 120 );\n";
		plans[i].src = s;
		noteBlock("script", plans[i].render(true));
		if (!compileTo(plans[i].render(true), im[i])) { COUNT("gen.compile_refused"); return; }
	}
	WRState* w = newState(300);
	wr_registerFunction(w, "mb", h_mb, 0); wr_registerFunction(w, "bf", h_bf, 0);
	wr_setAllocatedMemoryGCHint(w, ch(2) ? ch(2000) : 4000);
	std::vector<Script*> live; int loaded = 0, lateFns = 0, steps = 0;
	g_phase = "interleaving";
	while (++steps < 4000)
	{
		bool any = loaded < ns;
		for (size_t i = 0; i < live.size(); ++i) if (!live[i]->done()) any = true;
		if (!any) break;
		if (loaded < ns && (live.empty() || ch(6) == 0))
		{
			Script* s = new Script; s->logGlobals = false; static const char* nm[] = { "A", "B", "C", "D", "E" };
			if (!scriptLoad(*s, w, &plans[loaded], &im[loaded], nm[loaded])) violate("load", "a valid image is refused");
			++loaded; live.push_back(s); sched("load %s", s->name); continue;
		}
		if (ch(40) == 39)
		{
			// the host registers more while messages are there
			std::string f = sfmt("late%d", lateFns);
			wr_registerFunction(w, f.c_str(), h_late, (void*)(intptr_t)(lateFns * 10)); ++lateFns; sched("register %s", f.c_str()); continue;
		}
		size_t k = ch((uint32_t)live.size());
		Script* s = live[k];
		if (g_boxNames && s->done() && s->c && !wr_getYieldInfo(s->c) && !ch(3))
		{
			// the host tries a function that is not there
			std::string f = ch(2) ? "nokey" : sfmt("key%d", (int)ch(range)); sched("call %s of %s", f.c_str(), s->name); COUNT("fault.host_calls_missing_function");
			if (wr_callFunction(s->c, f.c_str())) violate("load", "a function that is not there returns something");
			continue;
		}
		if (s->done() || ch(60) == 59) { if (s->done() ? ch(3) == 0 : true) { sched("destroy %s", s->name); wr_destroyContext(s->c); delete s; live.erase(live.begin() + k); } continue; }
		setSlice(w, steps > 3000 ? 0 : budget());
		sched("enter %s", s->name);
		int yb = s->yields;
		scriptStep(*s, 0); (void)yb;
		s->log.clear(); s->stageEnds.clear();
	}
	setSlice(w, 0);
	// the settled content, as a script that never ran before sees it
	g_phase = "settled content";
	std::string chk;
	int cnt = 0;
	for (std::map<uint32_t, uint32_t>::iterator i = g_box.begin(); i != g_box.end() && cnt < 120; ++i, ++cnt) chk += sfmt("mb( 1, %d, 0, msg::read( %d ) ); mb( 4, %d, 0, msg::peek( %d ) );\n", (int)i->first, (int)i->first, (int)i->first, (int)i->first);
	for (int i = 0; i < 10; ++i) { std::string k = boxKey(range, false); chk += "mb( 1, " + k + ", 0, msg::read( " + k + " ) ); mb( 4, " + k + ", 0, msg::peek( " + k + " ) );\n"; }
	for (int i = 0; i < lateFns; ++i) chk += sfmt("log( late%d( 3 ) );\n", i);
	chk += "log( str::strlen( \"abc\" ), str::mid( \"hello\", 1, 2 ), math::abs( -3 ) ); log( hv( 5 ) ); var l[] = { 1 }; list::push_back( l, 2 ); log( l );\n";
	Plan p; p.src = chk; Bytes b;
	if (compileTo(chk, b))
	{
		Script z; z.logGlobals = false;
		if (!scriptLoad(z, w, &p, &b, "last")) violate("load", "a valid image is refused");
		while (!z.done()) scriptStep(z);
		std::vector<std::string> want;
		for (int i = 0; i < lateFns; ++i) want.push_back(sfmt("L(%d)", i * 10 + 3));
		want.push_back("L(3 \"el\" 3f40400000)"); want.push_back("V(5)"); want.push_back(z.log.size() > want.size() ? z.log[want.size()] : "");
		want.push_back("L([1,2])"); want.push_back("R0 0");
		checkSame("libraries-disturbed", "a fresh script", want, z.log);
	}
	for (size_t i = 0; i < live.size(); ++i) delete live[i];
	wr_destroyState(w);
}

// ---------------------------------------------------------------- C13
// an image in memory that can only be read, ending where readable memory ends
struct RoImage
{
	uint8_t* base; size_t span; uint8_t* p; int n;
	RoImage(Bytes const& b) { size_t pg = 4096; span = ((b.size() + pg - 1) / pg + 1) * pg; base = (uint8_t*)mmap(0, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p = base + span - pg - b.size(); n = (int)b.size(); memcpy(p, &b[0], b.size()); mprotect(base, span - pg, PROT_READ); mprotect(base + span - pg, pg, PROT_NONE); }
	~RoImage() { munmap(base, span); }
};
static Bytes damageImage(Bytes const& im, Bytes const& other, std::string& how)
{
	Bytes d = im;
	switch (ch(9))
	{
		case 0: { uint32_t at = ch((uint32_t)d.size()), bit = ch(8); d[at] ^= 1 << bit; how = sfmt("bit %u of byte %u flipped", bit, at); COUNT("fault.bit_flip"); break; }
		case 1: { uint32_t n = ch((uint32_t)d.size()); d.resize(n); how = sfmt("truncated to %u bytes", n); COUNT("fault.truncated"); break; }
		case 2:
		{
			// torn: the first sectors hold the new image, the rest what was there before
			static const int sec[] = { 512, 64, 16, 4 }; uint32_t s = sec[ch(4)]; uint32_t at = s * (1 + ch((uint32_t)(d.size() / s) + 1));
			for (size_t i = at; i < d.size(); ++i) d[i] = i < other.size() ? other[i] : 0xff;
			how = sfmt("torn at %u", at); COUNT("fault.torn_write"); break;
		}
		case 3: { uint32_t at = ch((uint32_t)d.size()), n = 1 + ch(64); for (size_t i = at; i < d.size() && i < at + n; ++i) d[i] = 0; how = sfmt("%u bytes zeroed at %u", n, at); COUNT("fault.zeroed"); break; }
		case 4: { uint32_t n = 1 + ch(40); for (uint32_t i = 0; i < n; ++i) d.push_back((uint8_t)ch(256)); how = sfmt("%u bytes appended", n); COUNT("fault.appended"); break; }
		case 5: { uint32_t a = ch((uint32_t)d.size()), b = ch((uint32_t)d.size()); std::swap(d[a], d[b]); how = sfmt("bytes %u and %u swapped", a, b); COUNT("fault.swapped"); break; }
		case 6: { uint32_t a = ch((uint32_t)d.size()); d[a] = (uint8_t)ch(256); how = sfmt("byte %u overwritten", a); COUNT("fault.overwritten"); break; }
		case 7: { uint32_t n = 1 + ch(8); if (d.size() > n) d.erase(d.begin(), d.begin() + n); how = sfmt("first %u bytes lost", n); COUNT("fault.front_lost"); break; }
		default: { uint32_t n = 1 + ch(3); for (uint32_t i = 0; i < n; ++i) { uint32_t at = ch((uint32_t)d.size()); d[at] += 1 + ch(255); } how = sfmt("%u bytes altered", n); COUNT("fault.altered"); break; }
	}
	return d;
}
void run_C13()
{
	uint64_t zero = g_al.liveBlocks;
	{
	std::vector<Work*> works;
	static const uint8_t flags[] = { WR_INCLUDE_GLOBALS, WR_INCLUDE_GLOBALS | WR_EMBED_DEBUG_CODE, WR_INCLUDE_GLOBALS | WR_EMBED_SOURCE_CODE, WR_INCLUDE_GLOBALS | WR_EMBED_SOURCE_CODE | WR_EMBED_DEBUG_CODE };
	bool ok = true;
	for (int i = 0; i < 2 && ok; ++i)
	{
		GenCfg cfg = swarmCfg(); cfg.maxCost = 100 + ch(400); cfg.topStmts = 2 + ch(5); cfg.yields = ch(4) == 0;
		Work* k = new Work; works.push_back(k); makeWork(*k, cfg);
		ok = k->ok;
		if (ok && ch(3) == 0) ok = compileTo(k->p.render(true), k->im, flags[ch(4)]);
	}
	if (!ok) { for (size_t i = 0; i < works.size(); ++i) delete works[i]; return; }
	g_phase = "read-only image"; g_al.fill = 0x5c;
	std::vector<RoImage*> ro;
	for (int i = 0; i < 2; ++i) ro.push_back(new RoImage(works[i]->im));
	WRState* w = newState(600);
	wr_setAllocatedMemoryGCHint(w, ch(3) ? ch(3000) : 0x7fffffff);
	std::vector<Script*> scripts; int total = 1 + ch(5), made = 0;
	for (int step = 0; step < 6000; ++step)
	{
		bool any = made < total;
		for (size_t i = 0; i < scripts.size(); ++i) if (!scripts[i]->done()) any = true;
		if (!any) break;
		if (made < total && (scripts.empty() || ch(5) == 0))
		{
			int k = ch(2); ++made;
			Script* s = new Script; s->w = w; s->plan = &works[k]->p; s->image = &works[k]->im; s->name = k ? "second" : "first";
			s->c = wr_newContext(w, ro[k]->p, ro[k]->n, false);
			if (!s->c) violate("load", "a valid image in read-only memory is refused, error %d", wr_getLastError(w));
			wr_setLocalContext(s->c, s); scripts.push_back(s); sched("load %s", s->name);
			continue;
		}
		if (ch(8) == 7)
		{
			// storage hands over a damaged image
			int k = ch(2); std::string how;
			Bytes d = damageImage(works[k]->im, works[1 - k]->im, how);
			if (d == works[k]->im) continue;
			if (d.empty()) d.reserve(1);
			uint8_t* heap = (uint8_t*)::malloc(d.size() ? d.size() : 1);
			if (d.size() == works[k]->im.size() && ch(2))
			{
				// the storage was good the first time it was read and is damaged where it lies
				memcpy(heap, &works[k]->im[0], d.size());
				if (!wr_isBytecodeValid(heap, (unsigned)d.size())) violate("refused", "a valid image is reported invalid");
				WRContext* good = wr_newContext(w, heap, (int)d.size(), false);
				if (!good) violate("load", "a valid image is refused, error %d", wr_getLastError(w));
				wr_destroyContext(good); COUNT("fault.damaged_after_load"); how += ", after it had been loaded from there";
			}
			if (d.size()) memcpy(heap, &d[0], d.size());
			uint64_t blocks = g_al.liveBlocks; int way = ch(4);
			sched("damaged image (%s) offered, way %d", how.c_str(), way);
			Script dead; dead.name = "damaged"; static Plan none; dead.plan = &none;
			{
				CurGuard g(&dead);
				if (wr_isBytecodeValid(heap, (unsigned)d.size())) violate("accepted", "a damaged image (%s) is reported valid", how.c_str());
				WRContext* c = 0; Script* host = 0; bool called = true;
				if (way == 0) c = wr_newContext(w, heap, (int)d.size(), false);
				else if (way == 1) c = wr_run(w, heap, (int)d.size(), false, false);
				else
				{
					for (size_t i = 0; i < scripts.size(); ++i) if (scripts[i]->started && !scripts[i]->suspended && !scripts[i]->topFailed) host = scripts[i];
					if (host) c = wr_import(host->c, heap, (int)d.size(), false); else called = false;
				}
				if (called)
				{
					if (c) violate("accepted", "a damaged image (%s) was loaded", how.c_str());
					if (wr_getLastError(w) != WR_ERR_bad_bytecode_CRC) violate("wrong-error", "a damaged image (%s) is refused with error %d", how.c_str(), wr_getLastError(w));
				}
			}
			if (dead.log.size()) violate("executed", "a damaged image (%s) ran: <%s>", how.c_str(), dead.log[0].c_str());
			if (g_al.liveBlocks != blocks) violate("blocks-left", "a refused image (%s) leaves %lld blocks: %s", how.c_str(), (long long)(g_al.liveBlocks - blocks), alloc_describeLive().c_str());
			::free(heap);
			continue;
		}
		Script* s = scripts[ch((uint32_t)scripts.size())];
		if (s->done()) continue;
		setSlice(w, step > 4000 ? 0 : budget());
		scriptStep(*s, 0);
	}
	setSlice(w, 0);
	for (size_t i = 0; i < scripts.size(); ++i) checkSame("history-differs", scripts[i]->name, works[scripts[i]->plan == &works[0]->p ? 0 : 1]->b.log, scripts[i]->log, !scripts[i]->done());
	for (size_t i = 0; i < 2; ++i) if (memcmp(ro[i]->p, &works[i]->im[0], works[i]->im.size())) violate("image-written", "the image changed");
	for (size_t i = 0; i < scripts.size(); ++i) { if (ch(2)) wr_destroyContext(scripts[i]->c); delete scripts[i]; }
	wr_destroyState(w);
	for (int i = 0; i < 2; ++i) { delete ro[i]; delete works[i]; }
	}
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}

// ---------------------------------------------------------------- C14
// values travel through the host: put( slot, bytes ) and get( slot )
static std::vector<Bytes> g_slots;
static void h_put(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	if (argn < 2) return;
	unsigned n = 0; const char* p = (const char*)argv[1].array(&n, SV_CHAR);
	Bytes b; if (p && argv[1].isString()) b.assign((const uint8_t*)p, (const uint8_t*)p + n);
	unsigned k = (unsigned)argv[0].asInt();
	if (g_slots.size() <= k) g_slots.resize(k + 1);
	g_slots[k] = b;
	wr_makeInt(&ret, (int)b.size());
}
static void h_get(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	unsigned k = argn ? (unsigned)argv[0].asInt() : 0;
	if (k < g_slots.size()) wr_makeString(c, &ret, g_slots[k].size() ? (const char*)&g_slots[k][0] : "", (int)g_slots[k].size());
}
struct ValGen
{
	std::string code; int n; bool structs;
	ValGen() : n(0), structs(false) {}
	std::string scalar()
	{
		switch (ch(6))
		{
			default: return sfmt("%d", (int)ch(200) - 100);
			case 1: return sfmt("%d.%d", (int)ch(100), (int)ch(100));
			case 2: return sfmt("\"s%d\"", (int)ch(50));
			case 3: return "\"\"";
			case 4: return "\"" + std::string(1 + ch(60), (char)('a' + ch(26))) + "\"";
			case 5: return sfmt("%d", (int)(ch(0x7fffffff)) * (ch(2) ? 1 : -1));
		}
	}
	// emits statements building a value; returns the variable that holds it
	std::string value(int depth)
	{
		std::string v = sfmt("t%d", n++);
		int k = depth <= 0 || n > 40 ? 0 : ch(3);
		if (k == 0) { code += "var " + v + " = " + scalar() + ";\n"; return v; }
		int m = ch(ch(4) ? 5 : 24);
		if (k == 1)
		{
			code += sfmt("var %s[%d];\n", v.c_str(), m);
			for (int i = 0; i < m; ++i) { if (ch(3)) code += sfmt("%s[%d] = %s;\n", v.c_str(), i, scalar().c_str()); else { std::string e = value(depth - 1); code += sfmt("%s[%d] = %s;\n", v.c_str(), i, e.c_str()); } }
		}
		else
		{
			code += "var " + v + " = { 1:" + scalar() + " };\n";
			for (int i = 0; i < m; ++i)
			{
				std::string key = ch(2) ? sfmt("\"k%d\"", (int)ch(40)) : sfmt("%d", (int)ch(60) * (ch(3) ? 1 : 997));
				if (ch(3)) code += v + "[" + key + "] = " + scalar() + ";\n"; else { std::string e = value(depth - 1); code += v + "[" + key + "] = " + e + ";\n"; }
				if (ch(8) == 0) code += v + "._remove( " + key + " );\n";
			}
		}
		return v;
	}
};
static void streamFault(Bytes& b)
{
	if (b.empty()) return;
	switch (ch(8))
	{
		case 0: b.resize(ch((uint32_t)b.size())); COUNT("fault.stream_cut"); break;
		case 1: b[ch((uint32_t)b.size())] ^= 1 << ch(8); COUNT("fault.stream_bit_flip"); break;
		case 2: b[ch((uint32_t)b.size())] = (uint8_t)ch(256); COUNT("fault.stream_byte_changed"); break;
		case 3: { static const uint8_t bad[] = { 0, 0xff, 1, 2, 3, 0xe0, 0xc0, 0x80 }; b[ch((uint32_t)b.size())] = bad[ch(8)]; COUNT("fault.stream_byte_changed"); break; }
		case 4: { uint32_t n = ch((uint32_t)b.size()); b.erase(b.begin(), b.begin() + n); COUNT("fault.stream_front_lost"); break; }
		case 5: { uint32_t at = ch((uint32_t)b.size()), n = 1 + ch(16); for (size_t i = at; i < b.size() && i < at + n; ++i) b[i] = 0; COUNT("fault.stream_zeroed"); break; }
		case 6: { uint32_t at = ch((uint32_t)b.size()); Bytes c(b.begin() + at, b.end()); b.insert(b.end(), c.begin(), c.end()); uint32_t a2 = ch((uint32_t)b.size()); b.erase(b.begin() + a2, b.begin() + std::min<size_t>(b.size(), a2 + 1 + ch(8))); COUNT("fault.stream_spliced"); break; }
		case 7: { uint32_t n = 1 + ch(40); b.clear(); for (uint32_t i = 0; i < n; ++i) { static const uint8_t hd[] = { 0, 1, 2, 3, 4, 0xff, 0xe0, 0xc0, 0x80, 0xa0 }; b.push_back(ch(3) ? hd[ch(10)] : (uint8_t)ch(256)); } COUNT("fault.stream_random"); break; }
	}
}
static void moreFunctions(WRState* w) { wr_registerFunction(w, "put", h_put, 0); wr_registerFunction(w, "get", h_get, 0); }
void run_C14()
{
	uint64_t zero = g_al.liveBlocks;
	g_slots.clear(); g_al.fill = 0x5c;
	ValGen g; int nv = 1 + ch(3); std::vector<std::string> vars;
	for (int i = 0; i < nv; ++i) vars.push_back(g.value(1 + ch(4)));
	std::string a = g.code;
	for (int i = 0; i < nv; ++i) a += sfmt("log( %s ); put( %d, std::serialize( %s ) ); var d%d = std::deserialize( std::serialize( %s ) ); log( d%d ); var e%d = std::deserialize( std::serialize( d%d ) ); log( e%d );\n", vars[i].c_str(), i, vars[i].c_str(), i, vars[i].c_str(), i, i, i, i);
	std::string b = "function show( v ) { log( v ); return 0; }\nfunction nop__() { return 0; }\n";
	b += "function fetch( k ) { var q = std::deserialize( get( k ) ); log( q ); return q; }\n";
	b += "function use( q ) { var cnt = 0; for ( var e : q ) { cnt++; hv( e ); } log( cnt, q._count ); var again = std::deserialize( std::serialize( q ) ); log( again ); return 0; }\n";
	b += "function odd( n, kind ) { var q[] = { 1 }; if ( kind == 0 ) { q[1] = q; } else if ( kind == 1 ) { for ( var i = 0; i < n; ++i ) { var z[] = { q }; q = z; } } else if ( kind == 2 ) { q[n * 400] = 7; } else { var h = {}; h[\"me\"] = h; q = h; }"
	     " var st = std::serialize( q ); var back = std::deserialize( st ); var known = 0; if ( kind == 2 ) { known = back._count; } if ( kind == 1 ) { var d = 0; for ( var t = back; t._count == 1; t = t[0] ) { if ( ++d > n + 5 ) { break; } } known = d; } log( kind, known, st._count ); return 0; }\n";
	b += "function grow( k ) { var q = std::deserialize( get( k ) ); q[5] = \"new\"; q[\"k3\"] = 3; log( q ); return 0; }\n";
	noteBlock("sender", a); noteBlock("receiver", b);
	Plan pa, pb; pa.src = a; pb.src = b; Bytes ia, ib;
	if (!compileTo(a, ia) || !compileTo(b, ib)) { COUNT("gen.compile_refused"); return; }
	{
	WRState* w1 = newState(400); moreFunctions(w1);
	WRState* w2 = ch(2) ? newState(400) : w1; if (w2 != w1) moreFunctions(w2);
	bool jit = ch(2);
	Script s1, s2; s1.logGlobals = s2.logGlobals = false;
	if (!scriptLoad(s1, w1, &pa, &ia, "sender")) violate("load", "a valid image is refused");
	if (!scriptLoad(s2, w2, &pb, &ib, "receiver")) violate("load", "a valid image is refused");
	g_phase = "transport";
	worldArm(w1); if (jit) { g_world.jitterGc = true; g_world.gcPct = 30; }
	while (!s1.done()) { setSlice(w1, budget()); scriptStep(s1, 0); if (s1.entries > 3000) setSlice(w1, 0); }
	worldOff(); setSlice(w1, 0); wr_setAllocatedMemoryGCHint(w1, 4000);
	if (s1.lastErr) violate("sender-failed", "error %d", s1.lastErr);
	for (int i = 0; i < nv; ++i)
	{
		if ((int)s1.log.size() < i * 3 + 3) violate("sender-failed", "observations are missing");
		if (s1.log[i * 3 + 1] != s1.log[i * 3]) violate("value-changed", "a value read back differs: <%s> became <%s>", s1.log[i * 3].substr(0, 600).c_str(), s1.log[i * 3 + 1].substr(0, 600).c_str());
		if (s1.log[i * 3 + 2] != s1.log[i * 3]) violate("value-changed", "a value read back twice differs: <%s> became <%s>", s1.log[i * 3].substr(0, 600).c_str(), s1.log[i * 3 + 2].substr(0, 600).c_str());
	}
	std::vector<std::string> shown; for (int i = 0; i < nv; ++i) shown.push_back(s1.log[i * 3]);
	std::vector<Bytes> good = g_slots;
	scriptStep(s2, 0);
	// across states, through the library and through the host
	bool senderGone = ch(2); if (senderGone) { wr_destroyContext(s1.c); sched("sender destroyed"); }
	for (int i = 0; i < nv; ++i)
	{
		CurGuard gd(&s2); WRValue k; wr_makeInt(&k, i);
		worldArm(w2); if (jit) { g_world.jitterGc = true; g_world.gcPct = 30; }
		s2.log.clear();
		WRValue* r = wr_callFunction(s2.c, "fetch", &k, 1);
		if (!r || s2.log.empty() || s2.log[0] != shown[i]) violate("value-changed", "another script receives <%s> instead of <%s>", s2.log.empty() ? "nothing" : s2.log[0].substr(0, 600).c_str(), shown[i].substr(0, 600).c_str());
		s2.log.clear(); WRValue v; v.init();
		if (!wr_deserialize(s2.c, v, good[i].size() ? (const char*)&good[i][0] : "", (int)good[i].size())) violate("refused", "a whole stream is refused");
		wr_callFunction(s2.c, "show", &v, 1);
		if (s2.log.empty() || s2.log[0] != shown[i]) violate("value-changed", "the host receives <%s> instead of <%s>", s2.log.empty() ? "nothing" : s2.log[0].substr(0, 600).c_str(), shown[i].substr(0, 600).c_str());
		worldOff(); wr_setAllocatedMemoryGCHint(w2, 4000);
		COUNT("sched.values_transported");
	}
	// damaged on the way
	g_phase = "damaged streams";
	int nd = 1 + ch(12);
	for (int i = 0; i < nd; ++i)
	{
		Bytes d = good[ch(nv)]; int nf = 1 + ch(3);
		for (int f = 0; f < nf; ++f) streamFault(d);
		int way = ch(4); std::string hex; for (size_t q = 0; q < d.size() && q < 120; ++q) hex += sfmt("%02x", d[q]);
		sched("stream of %d bytes by way %d: %s", (int)d.size(), way, hex.c_str());
		g_slots.resize(nv + 1); g_slots[nv] = d;
		CurGuard gd(&s2); WRValue k; wr_makeInt(&k, nv);
		uint64_t live = g_al.liveBytes; g_al.peakBytes = live; s2.log.clear();
		uint8_t* heap = (uint8_t*)::malloc(d.size() ? d.size() : 1); if (d.size()) memcpy(heap, &d[0], d.size());
		wr_setAllocatedMemoryGCHint(w2, ch(2) ? 0 : 4000);
		if (way == 0) wr_callFunction(s2.c, "fetch", &k, 1);
		else if (way == 1) wr_callFunction(s2.c, "grow", &k, 1);
		else
		{
			WRValue v; v.init();
			bool okd = wr_deserialize(s2.c, v, (const char*)heap, (int)d.size());
			if (okd) COUNT("probe.damaged_stream_accepted"); else COUNT("probe.damaged_stream_refused");
			if (okd || way == 3) { wr_callFunction(s2.c, "show", &v, 1); if (okd) wr_callFunction(s2.c, "use", &v, 1); }
		}
		::free(heap);
		uint64_t bound = 4 * 1024 * 1024 + 600ull * d.size();
		if (g_al.peakBytes - live > bound) violate("runaway-allocation", "reading a stream of %d bytes allocated %llu bytes", (int)d.size(), (unsigned long long)(g_al.peakBytes - live));
		wr_setAllocatedMemoryGCHint(w2, 0); wr_callFunction(s2.c, "nop__", 0, 0); wr_setAllocatedMemoryGCHint(w2, 4000);
	}
	// values the format has no room for: refused, or right
	if (!ch(8))
	{
		g_phase = "oversized values";
		CurGuard gd(&s2); WRValue k[2]; int kind = ch(4), n = 1 + ch(400); wr_makeInt(&k[0], n); wr_makeInt(&k[1], kind); s2.log.clear();
		sched("value of kind %d, %d", kind, n); COUNT("probe.oversized_or_cyclic_value");
		if (!wr_callFunction(s2.c, "odd", k, 2)) violate("oversized", "error %d for a value the format has no room for", (int)wr_getLastError(w2));
		int a0 = -1, known = -1, bytes = -1; if (s2.log.size() != 1 || sscanf(s2.log[0].c_str(), "L(%d %d %d", &a0, &known, &bytes) != 3) violate("oversized", "no observation: %s", s2.log.empty() ? "" : s2.log[0].c_str());
		if (bytes > 0 && (kind == 0 || kind == 3)) violate("oversized", "a value that contains itself was written as %d bytes", bytes);
		if (kind == 2 && known != (bytes > 0 ? n * 400 + 1 : 0)) violate("oversized", "an array of %d came back as %d (%d bytes)", n * 400 + 1, known, bytes);
		if (kind == 1 && bytes > 0 && known != n + 1) violate("oversized", "nested %d deep, came back %d deep", n + 1, known);
		if (kind == 1 && bytes <= 0 && n <= 20) violate("oversized", "nested only %d deep and refused", n + 1);
		if (kind == 2 && bytes <= 0 && n * 400 < 60000) violate("oversized", "an array of %d is refused", n * 400 + 1);
		wr_setAllocatedMemoryGCHint(w2, 0); wr_callFunction(s2.c, "nop__", 0, 0); wr_setAllocatedMemoryGCHint(w2, 4000);
	}
	// nothing of that matters to the next whole one
	{
		CurGuard gd(&s2); WRValue k; wr_makeInt(&k, 0); s2.log.clear();
		wr_callFunction(s2.c, "fetch", &k, 1);
		if (s2.log.empty() || s2.log[0] != shown[0]) violate("value-changed", "after damaged streams a whole one gives <%s>", s2.log.empty() ? "nothing" : s2.log[0].substr(0, 300).c_str());
	}
	wr_destroyState(w1); if (w2 != w1) wr_destroyState(w2);
	}
	if (g_al.liveBlocks != zero) violate("blocks-left", "%lld blocks are left: %s", (long long)(g_al.liveBlocks - zero), alloc_describeLive().c_str());
}
