// Simulator core: decision tape, event trace, tracking allocator, fault points, counters.
// Everything that happens in a run is a function of the tape (which a seed expands to).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cassert>
#include <cctype>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include "wr98.h"

// ---------------------------------------------------------------- tape
enum { TAPE_MAX = 1 << 17 };
struct Tape
{
	uint32_t v[TAPE_MAX];
	uint32_t len;     // choices recorded (or available, when replaying)
	uint32_t pos;
	bool replay;
	uint64_t s;       // generator state
};
extern Tape g_tape;
uint32_t ch(uint32_t n);                 // 0..n-1, 0 is the simplest choice
inline int chr_(int lo, int hi) { return lo + (int)ch((uint32_t)(hi - lo + 1)); }
inline bool chance(uint32_t num, uint32_t den) { return ch(den) >= den - num; } // 0 => false
template<class T> inline T const& pick(std::vector<T> const& a) { return a[ch((uint32_t)a.size())]; }
inline uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// ---------------------------------------------------------------- trace
extern bool g_verbose;
extern uint64_t g_traceHash;   // every event
extern uint64_t g_schedHash;   // schedule and fault decisions only
extern std::string g_traceText;
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void sched(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // event that is a schedule/fault decision
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // text for the replay file only
void noteBlock(const char* title, std::string const& text);
inline uint64_t fnv64(const void* p, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)p; while (n--) { h ^= *c++; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- counters (faults fired, probes reached)
struct Counter { const char* name; uint64_t n; Counter* next; Counter(const char* nm); };
extern Counter* g_counters;
#define COUNT(name) do { static Counter c_(name); ++c_.n; } while (0)
extern uint64_t g_steps;          // entries into the VM or library operations performed
extern bool g_nontrivial;         // this run exercised at least one schedule/fault decision

// ---------------------------------------------------------------- violations
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern const char* g_phase;       // what the run is doing (for crash reports)

// ---------------------------------------------------------------- allocator
struct AllocHook { virtual ~AllocHook() {} virtual bool onAlloc(size_t n) = 0; /* false: fail it */ };
struct Alloc
{
	uint64_t serial, liveBlocks, liveBytes, peakBytes, fails;
	unsigned char fill;
	AllocHook* hook;
	bool capHard;
};
extern Alloc g_al;
extern "C" void* sim_malloc(size_t n);
extern "C" void sim_free(void* p);
void alloc_reset(unsigned char fill);
bool alloc_isLive(const void* p);
std::string alloc_describeLive();
struct LiveMark { uint64_t blocks, bytes; };
inline LiveMark alloc_mark() { LiveMark m = { g_al.liveBlocks, g_al.liveBytes }; return m; }

// ---------------------------------------------------------------- property registry
struct PropDef { const char* id; void (*run)(); const char* rule; };
extern PropDef g_props[];
std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
