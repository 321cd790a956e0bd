// The property table: what one run of each is and when two runs count as different.
#include "core.h"
void run_C01(); void run_C02(); void run_C03(); void run_C08(); void run_C09(); void run_C10(); void run_C12();
void run_C04(); void run_C05(); void run_C06(); void run_C07();
void run_C11(); void run_C13(); void run_C14(); void run_C15(); void run_C16(); void run_C17(); void run_C18(); void run_C19();
PropDef g_props[] = {
	{ "C01", run_C01, "one run = a generated program with its call plan, executed uninterrupted and then sliced with seeded budgets, resume modes and asynchronous force-yield moments; non-trivial when at least one slice or forced yield was scheduled; distinct by the hash of program and all schedule decisions" },
	{ "C02", run_C02, "one run = 1-3 generated programs, up to six instances in one state, entered in a seeded interleaving with slices, nested entries from callbacks, late loads and destruction midway; distinct by the hash of programs and all schedule decisions" },
	{ "C03", run_C03, "one run = a generated program executed without collection and then with a seeded collection schedule (per-allocation or threshold changes), slices and yields; distinct by the hash of program and all schedule decisions" },
	{ "C04", run_C04, "one run = a seeded sequence of histories (load, run, suspend, fault, import, compile damaged text, serialize, lend containers, destroy in any condition), each repeated four times in one state, then the state destroyed with scripts in seeded conditions; distinct by the hash of programs and all decisions" },
	{ "C05", run_C05, "one run = a garbage-making loop of thousands of iterations, or hundreds of rounds of generated calls, at a seeded threshold and slicing; distinct by the hash of program and decisions" },
	{ "C06", run_C06, "one run = a generated or allocation-heavy program with a seeded allocation failing (once, or from there on) up to four times, then another script, a probe of the libraries and destruction; distinct by the hash of programs and decisions" },
	{ "C07", run_C07, "one run = a generated, recursive, argument-heavy, deeply nested or importing program at a seeded stack size, compared with an ample stack; distinct by the hash of program and decisions" },
	{ "C08", run_C08, "one run = a generated endless (or bounded) loop shape entered repeatedly with seeded budgets and force-yield moments; distinct by the hash of the schedule decisions" },
	{ "C09", run_C09, "one run = a generated yielding program compared with the same program making host calls instead, with seeded replies, resume modes, collections and slices; distinct by the hash of program and schedule decisions" },
	{ "C10", run_C10, "one run = a seeded history of add/tick/remove over generated, faulting, finishing and endless tasks, each compared tick by tick with the same task alone; distinct by the hash of programs and schedule decisions" },
	{ "C11", run_C11, "one run = up to five scripts writing, reading, clearing and peeking over a seeded key range, in a seeded interleaving with loads, registrations and destruction; distinct by the hash of programs and decisions" },
	{ "C12", run_C12, "one run = the C02 world with faulting programs and host mistakes; distinct by the hash of programs and schedule decisions" },
	{ "C13", run_C13, "one run = up to five instances of two generated programs run interleaved from read-only images while damaged images are offered; distinct by the hash of programs and decisions" },
	{ "C14", run_C14, "one run = up to three generated values serialized, carried through the library and the host API within and across states under seeded collections, then up to twelve damaged streams read back; distinct by the hash of programs and decisions" },
	{ "C15", run_C15, "one run = up to three scripts making seeded file calls, interleaved by slices and collections, over a simulated file system with seeded faults; distinct by the hash of programs and decisions" },
	{ "C16", run_C16, "one run = one or two pairs of simulated processes (a state and a generated script each) and possibly a native one exchanging seeded messages over the simulated network, under a seeded process schedule, segmentation, window, latency and faults; distinct by the hash of programs and decisions" },
	{ "C17", run_C17, "one run = a generated script split over one to four modules, imported by itself or by the host at seeded moments (damaged, uncompilable and failing ones among them), up to three instances interleaved under seeded collections and slices, compared with the same script linked into one; distinct by the hash of programs and decisions" },
	{ "C18", run_C18, "one run = one or two containers of the host (numbers, values and buffers of the host) lent to up to three scripts in up to two states, with structs the host makes and references to globals it holds; script operations interleaved with host writes, collections, slices and destruction, each checked against a model; distinct by the hash of programs and decisions" },
	{ "C19", run_C19, "one run = up to three scripts reading both clocks, interleaved by slices, while seeded time passes and the wall clock is stepped and slewed; distinct by the hash of programs and decisions" },
	{ 0, 0, 0 } };
