# What each check runs: per build variant, the number of seeded runs of the quick tier.
ALLOWED_WALL = {"quick": 240}
REAL = ["compiler", "VM", "garbage collector", "scheduler", "std libraries (string, math, container, io, msg, sys, serialize, tcp, time)", "serializer", "host API"]
STUB = ["heap (tracking allocator with seeded failures, over the sanitizer's allocator)", "file system", "TCP network and resolver", "clocks and sleeping", "host application callbacks"]
TECH = "deterministic simulation with fault injection: "
X = "exploration"
GEN = "programs come from the seeded generator of sim/gen.cpp (bounded loops and recursion, exclusions listed in DESIGN.md)"
PROPS = {
    "C01": {"variants": {"slices": 15000, "compact": 7500}, "level": X, "assumptions": [GEN],
            "technique": "seeded slice budgets and asynchronous forced yields at every allocation and callback; sliced history compared with the uninterrupted one"},
    "C02": {"variants": {"slices": 8000}, "level": X, "assumptions": [GEN],
            "technique": "seeded interleavings of up to six scripts, nested entries, late loads and destruction; each history compared with the script run alone"},
    "C03": {"variants": {"slices": 12500, "plain": 6250}, "level": X, "assumptions": [GEN],
            "technique": "seeded placement of collections after individual allocations; history compared with a run without collection"},
    "C04": {"variants": {"slices": 6000, "plain": 2250}, "level": X, "assumptions": [GEN, "damaged source texts are only run when they do not compile"],
            "technique": "seeded histories of load, run, suspend, fault, import, refused compile and destruction at any point, every block counted by the allocator; no residue per repetition or at the end"},
    "C05": {"variants": {"slices": 5000, "plain": 2000}, "level": X, "assumptions": [GEN, "hash tables keep the capacity they once reached"],
            "technique": "garbage-making loops and repeated calls at seeded thresholds and slicings; live bytes bounded at every entry"},
    "C06": {"variants": {"mallocfail": 12000}, "level": X, "assumptions": [GEN, "failures are injected while a script executes, not into the compiler or the host's own allocations"],
            "technique": "seeded allocation failures (single and lasting) while scripts execute; history up to the failure, error, other scripts, libraries and block balance checked"},
    "C07": {"variants": {"slices": 24000, "compact": 12000}, "level": X, "assumptions": [GEN, "imported code runs unsliced here (it cannot suspend)"],
            "technique": "seeded stack sizes against recursion, deep expressions, argument floods and imports; equal history or its prefix plus the overflow error, overruns caught by the sanitizer at the block's end"},
    "C08": {"variants": {"slices": 36000, "compact": 12000}, "level": X, "assumptions": ["loop shapes come from the generator in sim/p_sched.cpp"],
            "technique": "generated endless loops under seeded budgets and force-yield requests; bound on iterations per entry and progress checked at every entry"},
    "C09": {"variants": {"plain": 7500, "slices": 7500}, "level": X, "assumptions": [GEN],
            "technique": "seeded replies, resume modes and collections around yields; history compared with the same program making host calls"},
    "C10": {"variants": {"slices": 9000}, "level": X, "assumptions": [GEN],
            "technique": "seeded add/tick/remove histories over finishing, faulting and endless tasks; each task compared tick by tick with a lone peer; progress bound after faults stop"},
    "C11": {"variants": {"slices": 8000}, "level": X, "assumptions": ["up to some hundred keys per run; table growth is bounded by the largest table size"],
            "technique": "seeded interleavings of several scripts and the host on the message box, checked operation by operation against a map model"},
    "C12": {"variants": {"slices": 10000}, "level": X, "assumptions": [GEN],
            "technique": "seeded script faults and host mistakes among interleaved scripts; error codes, fault markers and the others' histories checked"},
    "C13": {"variants": {"slices": 6000}, "level": X, "assumptions": [GEN, "damage is what the image's checksum can detect with certainty or near certainty (32 bit)"],
            "technique": "seeded truncation, torn writes, bit flips and splices of stored images offered to running states; refusal, untouched histories and a read-only image under concurrent scripts"},
    "C14": {"variants": {"slices": 6000, "compact": 2000}, "level": X, "assumptions": ["values come from the generator in sim/p_data.cpp"],
            "technique": "seeded values transported between scripts, states and the host under seeded collections; seeded stream faults (cut, torn, flipped, spliced) must be refused or give a well-formed value within bounded memory"},
    "C15": {"variants": {"slices": 18000}, "level": X, "assumptions": ["file calls come from the generator in sim/p_io.cpp; the simulated storage follows POSIX"],
            "technique": "seeded file calls of interleaved scripts over a simulated file system with seeded open/read/write/close/sync failures, short transfers, full disk and files changed by others; every result compared with what storage really did"},
    "C16": {"variants": {"slices": 5000}, "level": X, "assumptions": ["exchanges come from the generator in sim/p_io.cpp; the simulated network is TCP-like (ordered, reliable until reset)"],
            "technique": "simulated processes exchanging messages over a simulated network with seeded process schedule, segmentation, windows, latency, resets, refusals, partial sends and interrupted calls; every result compared with what the network really moved, exchange completes when nothing was reset"},
    "C17": {"variants": {"slices": 4000, "compact": 1500}, "level": X, "assumptions": [GEN, "a module is imported once per script; the host does not call into an import while its importer is suspended"],
            "technique": "a generated script split over modules compared with the same script linked into one, under seeded import moments (by script, by host, before running, while suspended), damaged, uncompilable and failing modules, collections, slices, interleaved instances and destruction"},
    "C18": {"variants": {"slices": 18000, "plain": 4500, "compact": 4500}, "level": X, "assumptions": ["host operations come from the generator in sim/p_host.cpp; the host does not re-enter the context that is running"],
            "technique": "containers, values and buffers of the host lent to interleaved scripts, structs the host makes and global references it holds, under seeded host writes, collections, slices, forced yields, key removal and growth, and destruction; every operation compared with a model and host memory compared byte by byte"},
    "C19": {"variants": {"slices": 24000}, "level": X, "assumptions": ["the millisecond clock is a 32-bit count"],
            "technique": "simulated clocks with seeded steps, slews and stalls under interleaved scripts; every reading compared with the simulated time"},
}
NOT_APPLICABLE = {
    "C20": "meaning of compiled code is a pure function of the source: no schedule, fault, clock or I/O takes part, so simulation adds nothing over input generation",
    "C21": "compilation is a pure single-call function of its text; no concurrency, time or I/O for a simulator to control (allocation failure inside the compiler is not handled by design)",
    "C22": "operators and math/string calls are pure functions of their operands; nothing nondeterministic to put behind a seam",
    "C23": "needs other architectures; a single-process simulation on this machine cannot vary endianness, alignment or word size",
    "C24": "the debugger is only in builds with WRENCH_INCLUDE_DEBUG_CODE and its client blocks on a serial/TCP link with platform code not part of the default build; its link is documented as reliable, so the fault model has nothing to inject",
}
