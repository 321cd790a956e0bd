#include "core.h"
#include <signal.h>
#include <errno.h>
#include <sys/personality.h>

Tape g_tape;
bool g_verbose = false;
uint64_t g_traceHash, g_schedHash;
std::string g_traceText;
Counter* g_counters = 0;
uint64_t g_steps;
bool g_nontrivial;
const char* g_phase = "";
Alloc g_al;

Counter::Counter(const char* nm) : name(nm), n(0), next(g_counters) { g_counters = this; }

uint32_t ch(uint32_t n)
{
	if (n <= 1) n = 1;
	uint32_t r;
	if (g_tape.replay)
	{
		r = g_tape.pos < g_tape.len ? g_tape.v[g_tape.pos] % n : 0;
		++g_tape.pos;
		return r;
	}
	g_tape.s += 0x9E3779B97F4A7C15ull;
	uint64_t z = g_tape.s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
	r = (uint32_t)((z >> 32) % n);
	if (g_tape.len >= TAPE_MAX) return 0;
	g_tape.v[g_tape.len++] = r;
	g_tape.pos = g_tape.len;
	return r;
}

static void addText(const char* b, int n)
{
	if (g_verbose && g_traceText.size() < (1 << 18)) { g_traceText.append(b, n); g_traceText += '\n'; }
}
#define FORMAT_EV char b[1024]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof(b), fmt, a); va_end(a); if (n >= (int)sizeof(b)) n = sizeof(b) - 1;
void ev(const char* fmt, ...)
{
	FORMAT_EV
	g_traceHash = fnv64(b, n, g_traceHash) * 31 + 7;
	addText(b, n);
}
void sched(const char* fmt, ...)
{
	FORMAT_EV
	g_traceHash = fnv64(b, n, g_traceHash) * 31 + 11;
	g_schedHash = fnv64(b, n, g_schedHash) * 31 + 3;
	g_nontrivial = true;
	if (g_verbose) { g_traceText += "! "; addText(b, n); }
}
void note(const char* fmt, ...) { if (!g_verbose) return; FORMAT_EV addText(b, n); }
void noteBlock(const char* title, std::string const& text)
{
	if (!g_verbose) return;
	g_traceText += "---- "; g_traceText += title; g_traceText += " ----\n"; g_traceText += text; g_traceText += "\n----\n";
}

std::string sfmt(const char* fmt, ...)
{
	char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
	return b;
}

// ---------------------------------------------------------------- allocator
struct Slot { void* p; uint32_t size; uint32_t serial; };
enum { SLOTS = 1 << 18 };
static Slot g_slots[SLOTS];
static std::vector<uint32_t>* g_used = 0;

static inline uint32_t slotOf(const void* p) { return (uint32_t)(mix64((uint64_t)(uintptr_t)p) & (SLOTS - 1)); }

extern "C" void* sim_malloc(size_t n)
{
	if (n > (64u << 20) || g_al.liveBytes + n > (256ull << 20))
	{
		if (g_al.capHard)
		{
			violate("runaway-allocation", "a single request of %llu bytes with %llu live", (unsigned long long)n, (unsigned long long)g_al.liveBytes);
		}
		++g_al.fails;
		return 0;
	}
	++g_al.serial;
	if (g_al.hook && !g_al.hook->onAlloc(n)) { ++g_al.fails; return 0; }
	void* p = malloc(n ? n : 1);
	if (!p) { fprintf(stderr, "simulator out of memory\n"); _exit(98); }
	memset(p, g_al.fill, n);
	uint32_t i = slotOf(p);
	while (g_slots[i].p) i = (i + 1) & (SLOTS - 1);
	g_slots[i].p = p; g_slots[i].size = (uint32_t)n; g_slots[i].serial = (uint32_t)g_al.serial;
	++g_al.liveBlocks; g_al.liveBytes += n;
	if (g_al.liveBlocks > SLOTS / 2) violate("runaway-allocation", "%llu live blocks", (unsigned long long)g_al.liveBlocks);
	if (g_al.liveBytes > g_al.peakBytes) g_al.peakBytes = g_al.liveBytes;
	return p;
}

static int findSlot(const void* p)
{
	uint32_t i = slotOf(p);
	while (g_slots[i].p) { if (g_slots[i].p == p) return (int)i; i = (i + 1) & (SLOTS - 1); }
	return -1;
}
bool alloc_isLive(const void* p) { return findSlot(p) >= 0; }

extern "C" void sim_free(void* p)
{
	if (!p) return;
	int k = findSlot(p);
	if (k < 0) violate("bad-free", "free of a block that is not allocated (double free or foreign pointer)");
	uint32_t i = (uint32_t)k;
	--g_al.liveBlocks; g_al.liveBytes -= g_slots[i].size;
	// backward-shift deletion
	uint32_t j = i;
	for (;;)
	{
		g_slots[i].p = 0;
		for (;;)
		{
			j = (j + 1) & (SLOTS - 1);
			if (!g_slots[j].p) goto done;
			uint32_t h = slotOf(g_slots[j].p);
			if (i <= j ? (h <= i || h > j) : (h <= i && h > j)) break;
		}
		g_slots[i] = g_slots[j];
		i = j;
	}
done:
	free(p);
}

void alloc_reset(unsigned char fill)
{
	// leftover blocks of an earlier (violation-free) run are never expected here
	if (g_al.liveBlocks)
	{
		for (uint32_t i = 0; i < SLOTS; ++i) if (g_slots[i].p) { free(g_slots[i].p); g_slots[i].p = 0; }
	}
	memset(&g_al, 0, sizeof(g_al));
	g_al.fill = fill;
	g_al.capHard = true;
}

std::string alloc_describeLive()
{
	std::vector<std::pair<uint32_t, uint32_t> > v;
	for (uint32_t i = 0; i < SLOTS; ++i) if (g_slots[i].p) v.push_back(std::make_pair(g_slots[i].serial, g_slots[i].size));
	std::sort(v.begin(), v.end());
	std::string s;
	for (size_t i = 0; i < v.size() && i < 12; ++i) s += sfmt("#%u:%uB ", v[i].first, v[i].second);
	return s;
}

// ---------------------------------------------------------------- worker main
static const char* g_violFile = 0;
static const char* g_prop = "";
static uint64_t g_runIndex = 0, g_seed = 0;
static bool g_inViolation = false;

static void jstr(FILE* f, const char* s, size_t n)
{
	fputc('"', f);
	for (size_t i = 0; i < n; ++i)
	{
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
		else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

extern "C" FILE* __real_fopen(const char*, const char*);
void simio_deactivate();

static void writeViolation(const char* cls, const char* msg)
{
	g_al.hook = 0;
	simio_deactivate();
	if (!g_violFile) { fprintf(stderr, "VIOLATION %s %s: %s\n%s", g_prop, cls, msg, g_traceText.c_str()); return; }
	FILE* f = __real_fopen(g_violFile, "w");
	if (!f) return;
	fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"run\":%llu,\"class\":", g_prop, (unsigned long long)g_seed, (unsigned long long)g_runIndex);
	jstr(f, cls, strlen(cls)); fprintf(f, ",\"message\":"); jstr(f, msg, strlen(msg));
	fprintf(f, ",\"phase\":"); jstr(f, g_phase, strlen(g_phase));
	fprintf(f, ",\"trace_hash\":\"%016llx\",\"tape\":[", (unsigned long long)g_traceHash);
	uint32_t n = g_tape.replay ? (g_tape.pos < g_tape.len ? g_tape.pos : g_tape.len) : g_tape.len;
	for (uint32_t i = 0; i < n; ++i) fprintf(f, i ? ",%u" : "%u", g_tape.v[i]);
	fprintf(f, "]");
	if (g_verbose) { fprintf(f, ",\"trace\":"); jstr(f, g_traceText.c_str(), g_traceText.size()); }
	fprintf(f, "}\n");
	fclose(f);
}

void violate(const char* cls, const char* fmt, ...)
{
	char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof(b), fmt, a); va_end(a);
	if (!g_inViolation) { g_inViolation = true; writeViolation(cls, b); }
	_exit(77);
}

extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" const char* __asan_get_report_description();
extern "C" int __asan_report_present();
static void onDeath()
{
	if (g_inViolation) return;
	g_inViolation = true;
	const char* d = __asan_report_present() ? __asan_get_report_description() : "fatal-signal";
	std::string c = std::string("crash:") + (d && *d ? d : "signal");
	writeViolation(c.c_str(), "memory error or fatal signal in the code under test (see the sanitizer report)");
	_exit(77);
}
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:handle_sigfpe=1:handle_sigill=1:"
		   "quarantine_size_mb=16:malloc_context_size=6:allocator_may_return_null=1:max_malloc_fill_size=0:symbolize=0:"
		   "use_sigaltstack=1:print_legend=0:print_full_thread_history=0";
}
static void onProf(int)
{
	if (g_inViolation) _exit(77);
	g_inViolation = true;
	writeViolation("hang", "the code under test did not return control");
	_exit(77);
}

void host_reset();
static void resetRun()
{
	host_reset();
	g_traceHash = 1469598103934665603ull; g_schedHash = 99; g_traceText.clear();
	g_nontrivial = false; g_phase = "";
	alloc_reset(0xA5);
	wr_setGlobalAllocator(sim_malloc, sim_free);
	struct itimerval t; memset(&t, 0, sizeof(t)); t.it_value.tv_sec = 8;
	setitimer(ITIMER_PROF, &t, 0);
}

static PropDef* findProp(const char* id)
{
	for (PropDef* p = g_props; p->id; ++p) if (!strcmp(p->id, id)) return p;
	return 0;
}

int main(int argc, char** argv)
{
	// addresses are part of the environment: keep them the same in every process
	int pers = personality(0xffffffff);
	if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
	{
		setenv("SIM_REEXEC", "1", 1);
		if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	const char* statFile = 0; const char* replayFile = 0; const char* progress = 0;
	uint64_t from = 0, to = 1; bool list = false; bool hashes = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		const char* nx = i + 1 < argc ? argv[i + 1] : "";
		if (a == "--prop") { g_prop = nx; ++i; }
		else if (a == "--seed") { g_seed = strtoull(nx, 0, 10); ++i; }
		else if (a == "--from") { from = strtoull(nx, 0, 10); ++i; }
		else if (a == "--to") { to = strtoull(nx, 0, 10); ++i; }
		else if (a == "--stat") { statFile = nx; ++i; }
		else if (a == "--viol") { g_violFile = nx; ++i; }
		else if (a == "--progress") { progress = nx; ++i; }
		else if (a == "--tape") { replayFile = nx; ++i; }
		else if (a == "-v") g_verbose = true;
		else if (a == "--hashes") hashes = true;
		else if (a == "--list") list = true;
	}
	if (list) { for (PropDef* p = g_props; p->id; ++p) printf("%s\t%s\n", p->id, p->rule); return 0; }
	PropDef* P = findProp(g_prop);
	if (!P) { fprintf(stderr, "unknown property %s\n", g_prop); return 2; }
	__sanitizer_set_death_callback(onDeath);
	signal(SIGPROF, onProf);

	if (replayFile)
	{
		g_tape.replay = true;
		FILE* f = __real_fopen(replayFile, "r");
		if (!f) return 2;
		unsigned v;
		while (g_tape.len < TAPE_MAX && fscanf(f, "%u", &v) == 1) g_tape.v[g_tape.len++] = v;
		fclose(f);
		resetRun();
		P->run();
		simio_deactivate();
		if (g_verbose) printf("%s", g_traceText.c_str());
		printf("OK trace=%016llx\n", (unsigned long long)g_traceHash);
		return 0;
	}

	int pfd = progress ? open(progress, O_CREAT | O_TRUNC | O_RDWR, 0644) : -1;
	FILE* sf = statFile ? __real_fopen(statFile, "w") : 0;
	FILE* hf = statFile ? __real_fopen((std::string(statFile) + ".h").c_str(), "w") : 0;
	uint64_t runs = 0, nontriv = 0;
	for (uint64_t r = from; r < to; ++r)
	{
		g_runIndex = r;
		if (pfd >= 0 && pwrite(pfd, &r, sizeof(r), 0) < 0) return 2;
		g_tape.replay = false; g_tape.len = g_tape.pos = 0;
		g_tape.s = mix64(g_seed * 0x100000001B3ull + mix64(r ^ fnv64(g_prop, strlen(g_prop))));
		resetRun();
		P->run();
		simio_deactivate();
		++runs;
		if (g_nontrivial) { ++nontriv; if (hf) fwrite(&g_schedHash, 8, 1, hf); }
		if (hashes) printf("%llu %016llx %016llx\n", (unsigned long long)r, (unsigned long long)g_traceHash, (unsigned long long)g_schedHash);
		if (g_verbose) printf("%s", g_traceText.c_str());
	}
	if (hf) fclose(hf);
	if (sf)
	{
		fprintf(sf, "{\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"counters\":{", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)g_steps);
		bool first = true;
		std::map<std::string, uint64_t> m;
		for (Counter* c = g_counters; c; c = c->next) m[c->name] += c->n;
		for (std::map<std::string, uint64_t>::iterator i = m.begin(); i != m.end(); ++i) { fprintf(sf, "%s\"%s\":%llu", first ? "" : ",", i->first.c_str(), (unsigned long long)i->second); first = false; }
		fprintf(sf, "}}\n");
		fclose(sf);
	}
	return 0;
}
