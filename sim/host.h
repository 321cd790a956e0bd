// The host application under simulation: states, scripts, the functions lent to scripts, and
// the recorded history of everything the host can observe.
#pragma once
#include "core.h"

typedef std::vector<uint8_t> Bytes;

struct Arg { int kind; int i; float f; std::string s; };   // 0 int, 1 float, 2 string
struct Call { std::string fn; std::vector<Arg> args; };
struct Plan
{
	std::string src;                   // '\x01' marks the name used for yield
	std::vector<Call> calls;
	std::vector<std::string> globals;  // names to observe
	std::vector<std::string> functions;
	uint32_t replySeed;
	bool hasFault;
	std::string pure;         // a small function of the script: x -> 2x + 7, no effects
	Plan() : replySeed(0), hasFault(false) {}
	std::string render(bool asYield) const;
};

// value as text; never depends on addresses
std::string dump(WRContext* c, WRValue const& v, int depth = 0);

// compile in the simulation; false when the compiler refused it
bool compileTo(std::string const& src, Bytes& out, uint8_t flags = WR_INCLUDE_GLOBALS, int* err = 0);

struct Script
{
	WRState* w;
	WRContext* c;
	Plan const* plan;
	Bytes const* image;
	const char* name;
	int stage;            // -1 top level not yet entered, 0 top level, k = call k-1
	bool started, suspended, forced, finished;
	int yields;           // genuine yields seen
	int forcedYields;
	int entries;
	int lastErr;
	bool topFailed;
	bool logGlobals;
	std::vector<std::string> log;
	std::vector<int> stageEnds;       // log size at the end of each stage
	Script() : w(0), c(0), plan(0), image(0), name(""), stage(-1), started(false), suspended(false), forced(false), finished(false), yields(0), forcedYields(0), entries(0), lastErr(0), topFailed(false), logGlobals(true) {}
	bool done() const { return finished; }
};

extern bool g_hostSide;               // the host itself is allocating, outside any entry: injected failures leave it alone
extern Script* g_cur;                 // whose code the host is running right now
struct CurGuard { Script* o; CurGuard(Script* s) : o(g_cur) { g_cur = s; } ~CurGuard() { g_cur = o; } };

// hook called inside every host callback (forced yields, nested entries)
extern void (*g_callbackHook)(WRContext* c, const char* fn);

// when set, decides whose callback this is from the context it arrived with
extern Script* (*g_ctxResolve)(WRContext* c);
extern bool g_silentYield;
extern std::vector<Bytes> g_imgs;    // what img( n ) and src( n ) give a script
extern std::vector<std::string> g_srcs;
void registerHost(WRState* w);
WRState* newState(int stackSize, bool libs = true);

// load the script's image (wr_newContext); false when refused
bool scriptLoad(Script& s, WRState* w, Plan const* p, Bytes const* image, const char* name);
// one entry into the VM on behalf of the script. resume: 0 wr_continue, 1 call by name, 2 call by pointer
void scriptStep(Script& s, int resume = 0);
void scriptObserveGlobals(Script& s);
extern uint32_t g_slice;              // the slice in force (see setSlice)
void probePure(Script& s);            // an idle script's small function still answers, whatever happened before
std::string joinLog(std::vector<std::string> const& v);
void logLine(Script* s, std::string const& line);

// run alone, uninterrupted, without collection, with yields as plain host calls
struct Baseline { std::vector<std::string> log; std::vector<int> stageEnds; int lastErr; bool ok; uint64_t allocs; uint64_t peak; Baseline() : lastErr(0), ok(false), allocs(0), peak(0) {} };
Baseline runBaseline(Plan const& p, int stackSize, bool asYield = false, uint32_t gcHint = 0x7fffffff);

// compare histories; reports the first difference
void checkSame(const char* cls, const char* who, std::vector<std::string> const& expect, std::vector<std::string> const& got, bool prefixOnly = false);
void setReply(WRContext* c, WRValue& v, uint32_t seed, int n);

extern std::string g_expectCtx;
