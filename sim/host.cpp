#include "host.h"

bool g_hostSide = false;
Script* g_cur = 0;
void (*g_callbackHook)(WRContext* c, const char* fn) = 0;
Script* (*g_ctxResolve)(WRContext* c) = 0;
bool g_silentYield = false;
void host_reset() { g_cur = 0; g_callbackHook = 0; g_ctxResolve = 0; g_silentYield = false; }

std::string Plan::render(bool asYield) const
{
	std::string o;
	for (size_t i = 0; i < src.size(); ++i) { if (src[i] == '\x01') o += asYield ? "yield" : "hy"; else o += src[i]; }
	return o;
}

static const char* c_members[] = { "a", "b", "c", "d", "e" };

std::string dump(WRContext* c, WRValue const& v0, int depth)
{
	if (depth > 6) return "...";
	WRValue& v = v0.deref();
	if (v.type == WR_INT) return sfmt("%d", v.asInt());
	if (v.type == WR_FLOAT) { float f = v.asFloat(); uint32_t u; memcpy(&u, &f, 4); if (f != f) return "nan"; return sfmt("%.7gf%08x", f, u); }
	int len = 0;
	if (v.isString(&len))
	{
		unsigned n = 0; const char* p = (const char*)v.array(&n, SV_CHAR);
		std::string o = "\"";
		for (unsigned i = 0; i < n && i < 300; ++i) { unsigned char k = p[i]; if (k < 32 || k > 126 || k == '"') o += sfmt("\\%02x", k); else o += (char)k; }
		if (n >= 300) o += sfmt("..%u:%016llx", n, (unsigned long long)fnv64(p, n));
		return o + "\"";
	}
	if (v.isWrenchArray(&len))
	{
		std::string o = "[";
		for (int i = 0; i < len; ++i)
		{
			WRValue* e = v.indexArray(c, i, false);
			if (i) o += ",";
			if (i > 200) { o += sfmt("..%d", len); break; }
			o += e ? dump(c, *e, depth + 1) : std::string("?");
		}
		return o + "]";
	}
	if (v.isHashTable(&len))
	{
		std::vector<std::string> items;
		int guard = 0;
		for (WRValue::Iterator it = v.begin(); it != v.end(); ++it)
		{
			WRIteratorEntry const& e = *it;
			items.push_back(dump(c, *e.key, depth + 1) + ":" + dump(c, *e.value, depth + 1));
			if (++guard > 70000) break;
		}
		std::sort(items.begin(), items.end());
		std::string o = sfmt("{#%d ", len);
		for (size_t i = 0; i < items.size(); ++i) { if (i) o += ","; o += items[i]; }
		return o + "}";
	}
	if (v.isStruct())
	{
		std::string o = "<";
		for (unsigned i = 0; i < sizeof(c_members) / sizeof(c_members[0]); ++i)
		{
			WRValue* m = v.indexStruct(c_members[i]);
			if (m) o += std::string(c_members[i]) + "=" + dump(c, *m, depth + 1) + ";";
		}
		return o + ">";
	}
	if (v.isRawArray(&len))
	{
		std::string o = "raw(";
		unsigned n = 0; const char* p = (const char*)v.array(&n, SV_CHAR);
		for (unsigned i = 0; p && i < n && i < 64; ++i) o += sfmt("%02x", (unsigned char)p[i]);
		return o + ")";
	}
	return sfmt("?type%d", v.type);
}

bool compileTo(std::string const& src, Bytes& out, uint8_t flags, int* err)
{
	unsigned char* o = 0; int n = 0;
	AllocHook* h = g_al.hook; g_al.hook = 0;
	WRError e = wr_compile(src.c_str(), (int)src.size(), &o, &n, 0, flags);
	g_al.hook = h;
	if (err) *err = e;
	if (e != WR_ERR_None) { return false; }
	out.assign(o, o + n);
	wr_free(o);
	return true;
}

void logLine(Script* s, std::string const& line)
{
	if (!s) violate("stray-callback", "a host function was called while no script was running: %s", line.c_str());
	if (s->log.size() > 20000) violate("runaway-script", "script %s produced an unbounded history", s->name);
	s->log.push_back(line);
	ev("%s %s", s->name, line.size() > 600 ? sfmt("%s..%016llx", line.substr(0, 500).c_str(), (unsigned long long)fnv64(line.data(), line.size())).c_str() : line.c_str());
}

void setReply(WRContext* c, WRValue& v, uint32_t seed, int n)
{
	uint64_t z = mix64(seed * 7919ull + n);
	switch (z % 6)
	{
		case 0: return;       // leave the default
		case 1: wr_makeInt(&v, (int)(z >> 40)); return;
		case 2: wr_makeFloat(&v, (float)((z >> 32) & 1023) * 0.25f); return;
		case 3: { std::string s = sfmt("reply%d", (int)((z >> 20) & 255)); wr_makeString(c, &v, s.c_str(), (int)s.size()); return; }
		case 4: wr_makeInt(&v, -(int)((z >> 12) & 0xffff)); return;
		case 5: { std::string s((size_t)(1 + ((z >> 20) & 31)), (char)('a' + ((z >> 28) % 26))); wr_makeString(c, &v, s.c_str(), (int)s.size()); return; }
	}
}

static void checkCtx(WRContext* c)
{
	if (g_ctxResolve) { g_cur = g_ctxResolve(c); return; }
	// a script's callbacks arrive with that script's own context (imports have their own)
	if (g_cur && g_cur->c && c != g_cur->c && wr_getLocalContext(c) != 0)
		violate("wrong-context", "a callback made by script %s arrived with another script's context", g_cur->name);
}

static std::string dumpArgs(WRContext* c, const WRValue* argv, int argn)
{
	std::string s;
	for (int i = 0; i < argn; ++i) { if (i) s += " "; s += dump(c, argv[i]); }
	return s;
}

static void h_log(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	checkCtx(c);
	logLine(g_cur, "L(" + dumpArgs(c, argv, argn) + ")");
	if (g_callbackHook) g_callbackHook(c, "log");
}
static void h_hy(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	if (g_silentYield) return;
	logLine(g_cur, "Y(" + dumpArgs(c, argv, argn) + ")");
	setReply(c, ret, g_cur->plan->replySeed, g_cur->yields++);
}
static void h_hv(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	checkCtx(c);
	std::string d = dumpArgs(c, argv, argn);
	logLine(g_cur, "V(" + d + ")");
	wr_makeInt(&ret, (int)(fnv64(d.data(), d.size()) & 0x3ff));
	if (g_callbackHook) g_callbackHook(c, "hv");
}
static void h_hs(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	checkCtx(c);
	std::string d = dumpArgs(c, argv, argn);
	logLine(g_cur, "S(" + d + ")");
	std::string s = sfmt("h%x", (unsigned)(fnv64(d.data(), d.size()) & 0xffff));
	wr_makeString(c, &ret, s.c_str(), (int)s.size());
	if (g_callbackHook) g_callbackHook(c, "hs");
}
// first argument handed back: a reference passing through the host
static void h_hi(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void* usr)
{
	checkCtx(c);
	logLine(g_cur, "I(" + dumpArgs(c, argv, argn) + ")");
	if (argn) ret = argv[0].deref();
	if (g_callbackHook) g_callbackHook(c, "hi");
}

// code the host has at hand: img( n ) an image, src( n ) a source text
std::vector<Bytes> g_imgs;
std::vector<std::string> g_srcs;
static void h_img(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	unsigned k = argn ? (unsigned)argv[0].asInt() : 0;
	if (k < g_imgs.size()) wr_makeString(c, &ret, (const char*)&g_imgs[k][0], (int)g_imgs[k].size());
}
static void h_src(WRContext* c, const WRValue* argv, const int argn, WRValue& ret, void*)
{
	unsigned k = argn ? (unsigned)argv[0].asInt() : 0;
	if (k < g_srcs.size()) wr_makeString(c, &ret, g_srcs[k].c_str(), (int)g_srcs[k].size());
}
void registerHost(WRState* w)
{
	wr_registerFunction(w, "img", h_img, 0);
	wr_registerFunction(w, "src", h_src, 0);
	wr_registerLibraryConstant(w, "hc::K", (int32_t)4711);
	wr_registerLibraryConstant(w, "hc::F", 2.5f);
	wr_registerFunction(w, "log", h_log, 0);
	wr_registerFunction(w, "hy", h_hy, 0);
	wr_registerFunction(w, "hv", h_hv, 0);
	wr_registerFunction(w, "hs", h_hs, 0);
	wr_registerFunction(w, "hi", h_hi, 0);
}

WRState* newState(int stackSize, bool libs)
{
	WRState* w = wr_newState(stackSize);
	if (!w) return 0;
	if (libs) wr_loadAllLibs(w);
	registerHost(w);
	return w;
}

bool scriptLoad(Script& s, WRState* w, Plan const* p, Bytes const* image, const char* name)
{
	s.w = w; s.plan = p; s.image = image; s.name = name;
	s.c = wr_newContext(w, &(*image)[0], (int)image->size(), false);
	if (!s.c) return false;
	wr_setLocalContext(s.c, &s);
	return true;
}

void scriptObserveGlobals(Script& s)
{
	std::string d = "G";
	for (size_t i = 0; i < s.plan->globals.size(); ++i)
	{
		WRValue* g = wr_getGlobalRef(s.c, s.plan->globals[i].c_str());
		d += " "; d += s.plan->globals[i]; d += "="; d += g ? dump(s.c, *g) : std::string("missing");
	}
	logLine(&s, d);
}

static void afterEntry(Script& s, WRValue* r)
{
	++g_steps;
	WRValue* args = 0; int argn = -1; WRValue* rv = 0;
	bool y = wr_getYieldInfo(s.c, &args, &argn, &rv);
	if (y && r) violate("yield-and-result", "script %s both returned a value and is suspended", s.name);
	if (y)
	{
		s.suspended = true;
		s.forced = rv == 0;
		int err = wr_getLastError(s.w);
		if (err) violate("yield-with-error", "script %s is suspended yet error %d is reported", s.name, err);
		if (s.forced)
		{
			++s.forcedYields;
			if (argn != 0) violate("forced-yield-args", "a forced yield of %s hands out %d arguments", s.name, argn);
		}
		else
		{
			std::string d;
			for (int i = 0; i < argn; ++i) { if (i) d += " "; d += dump(s.c, args[i]); }
			logLine(&s, "Y(" + d + ")");
			if (!(rv->type == WR_INT && rv->asInt() == 0)) violate("yield-default-reply", "the reply slot of %s does not hold the documented default", s.name);
			g_hostSide = true; setReply(s.c, *rv, s.plan->replySeed, s.yields++); g_hostSide = false;
		}
		return;
	}
	s.suspended = false;
	if (r)
	{
		std::string rv = dump(s.c, *r);
		logLine(&s, sfmt("R%d ", s.stage) + rv);
		WRValue* again = wr_returnValueFromLastCall(s.c); // library functions called straight from the host leave theirs elsewhere
		bool lib = s.stage > 0 && s.stage <= (int)s.plan->calls.size() && s.plan->calls[s.stage - 1].fn.find("::") != std::string::npos;
		if (!lib && (!again || dump(s.c, *again) != rv)) violate("return-value", "script %s returned <%s>, asked again it is <%s>", s.name, rv.c_str(), again ? dump(s.c, *again).c_str() : "nothing");
		int err = wr_getLastError(s.w);
		if (err) violate("result-with-error", "script %s returned a value yet error %d is reported", s.name, err);
		s.lastErr = 0;
	}
	else
	{
		s.lastErr = wr_getLastError(s.w);
		if (!s.lastErr) violate("null-without-error", "script %s returned nothing, is not suspended and no error is reported", s.name);
		logLine(&s, sfmt("E%d err=%d", s.stage, s.lastErr));
		if (s.stage == 0) s.topFailed = true;
	}
	if (s.logGlobals) scriptObserveGlobals(s);
	s.stageEnds.push_back((int)s.log.size());
	if (s.stage >= (int)s.plan->calls.size()) s.finished = true;
}

void scriptStep(Script& s, int resume)
{
	CurGuard g(&s);
	++s.entries;
	WRValue* r;
	if (!s.started)
	{
		s.started = true; s.stage = 0;
		r = wr_executeContext(s.c);
	}
	else if (s.suspended)
	{
		if (resume == 0 || s.plan->functions.empty()) r = wr_continue(s.c);
		else
		{
			WRValue junk[2]; wr_makeInt(&junk[0], 77); wr_makeInt(&junk[1], 78);
			std::string const& f = s.plan->functions[resume % s.plan->functions.size()];
			if (resume & 1) r = wr_callFunction(s.c, f.c_str(), junk, 2);
			else
			{
				WRFunction* p = wr_getFunction(s.c, f.c_str());
				r = wr_callFunction(s.c, p, junk, 2);
			}
		}
	}
	else
	{
		++s.stage;
		Call const& k = s.plan->calls[s.stage - 1];
		WRValue argv[80]; int n = 0; std::string shown;
		for (size_t i = 0; i < k.args.size() && n < 80; ++i, ++n)
		{
			shown += (i ? "," : "") + (k.args[i].kind == 0 ? sfmt("%d", k.args[i].i) : k.args[i].kind == 1 ? sfmt("%gf", k.args[i].f) : "\"" + k.args[i].s + "\"");
			if (k.args[i].kind == 0) wr_makeInt(&argv[n], k.args[i].i);
			else if (k.args[i].kind == 1) wr_makeFloat(&argv[n], k.args[i].f);
			else { g_hostSide = true; wr_makeString(s.c, &argv[n], k.args[i].s.c_str(), (int)k.args[i].s.size()); g_hostSide = false; }
		}
		logLine(&s, sfmt("C%d %s(%s)", s.stage, k.fn.c_str(), shown.c_str()));
		// by name, by hash or by the function fetched beforehand: all the same
		WRFunction* f = s.entries % 3 == 1 ? wr_getFunction(s.c, k.fn.c_str()) : 0;
		if (f) r = wr_callFunction(s.c, f, n ? argv : 0, n);
		else if (s.entries % 3 == 2) r = wr_callFunction(s.c, (int32_t)wr_hashStr(k.fn.c_str()), n ? argv : 0, n);
		else r = wr_callFunction(s.c, k.fn.c_str(), n ? argv : 0, n);
	}
	afterEntry(s, r);
}

std::string joinLog(std::vector<std::string> const& v)
{
	std::string o;
	for (size_t i = 0; i < v.size(); ++i) { o += v[i]; o += "\n"; }
	return o;
}

Baseline runBaseline(Plan const& p, int stackSize, bool asYield, uint32_t gcHint)
{
	Baseline b;
	const char* ph = g_phase; g_phase = "baseline";
	Bytes im;
	int err;
	if (!compileTo(p.render(asYield), im, WR_INCLUDE_GLOBALS, &err))
	{
		note("baseline does not compile: %d", err);
		COUNT("gen.compile_refused");
		g_phase = ph; return b;
	}
	AllocHook* h = g_al.hook; g_al.hook = 0;
	void (*cbh)(WRContext*, const char*) = g_callbackHook; g_callbackHook = 0;
	WRState* w = newState(stackSize);
	wr_setAllocatedMemoryGCHint(w, gcHint);
	uint64_t a0 = g_al.serial; uint64_t live0 = g_al.liveBytes; g_al.peakBytes = live0;
	Script s;
	if (scriptLoad(s, w, &p, &im, "base"))
	{
		while (!s.done()) scriptStep(s, 0);
		b.ok = true;
	}
	else violate("load", "an image fresh from the compiler is refused");
	b.log = s.log; b.stageEnds = s.stageEnds; b.lastErr = s.lastErr;
	b.allocs = g_al.serial - a0; b.peak = g_al.peakBytes - live0;
	wr_setAllocatedMemoryGCHint(w, 4000);
	wr_destroyState(w);
	g_al.hook = h; g_callbackHook = cbh;
	g_phase = ph;
	return b;
}

uint32_t g_slice = 0;
void probePure(Script& s)
{
	if (!s.started || s.suspended || s.topFailed || s.plan->pure.empty()) return;
	CurGuard g(&s);
#ifdef WRENCH_TIME_SLICES
	wr_setInstructionsPerSlice(s.w, 0);
#endif
	int x = (int)(s.log.size() % 1000);
	WRValue v; wr_makeInt(&v, x);
	WRValue* r = wr_callFunction(s.c, s.plan->pure.c_str(), &v, 1);
	for (int i = 0; !r && i < 4 && wr_getYieldInfo(s.c); ++i) r = wr_continue(s.c);   // a request was still pending
	if (!r || r->type != WR_INT || r->asInt() != x * 2 + 7) violate("function-harmed", "a small function of %s gives %s instead of %d (error %d)", s.name, r ? dump(s.c, *r).substr(0, 100).c_str() : "nothing", x * 2 + 7, wr_getLastError(s.w));
	if (wr_getLastError(s.w)) violate("error-not-cleared", "after a successful call of %s error %d is reported", s.name, wr_getLastError(s.w));
	COUNT("probe.small_function_called");
#ifdef WRENCH_TIME_SLICES
	wr_setInstructionsPerSlice(s.w, (int)g_slice);
#endif
}

void checkSame(const char* cls, const char* who, std::vector<std::string> const& expect, std::vector<std::string> const& got, bool prefixOnly)
{
	size_t n = std::min(expect.size(), got.size());
	for (size_t i = 0; i < n; ++i)
	{
		if (expect[i] != got[i]) violate(cls, "%s: observation %d differs: expected <%s> got <%s>", who, (int)i, expect[i].substr(0, 400).c_str(), got[i].substr(0, 400).c_str());
	}
	if (got.size() > expect.size()) violate(cls, "%s: extra observation <%s>", who, got[n].substr(0, 400).c_str());
	if (!prefixOnly && got.size() < expect.size()) violate(cls, "%s: missing observation <%s>", who, expect[n].substr(0, 400).c_str());
}
