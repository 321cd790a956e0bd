#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json, os
D = 'discrete_src/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": [f if f.startswith('/') else D + f for f in files],
         "mechanism": [{"name": n, "where": D + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": D + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Time slicing never changes what a script does",
  "Running a script in slices of any size, with forced yields requested at any moment and the script continued each time (or called again), produces the same host calls with the same argument values in the same order, the same final global variables, the same return value and the same error as one uninterrupted run. A forced yield hands out no arguments and needs no reply. This holds equally for the top-level program and for functions the host calls later, at any call depth and inside any loop, branch, switch or iteration.",
  ["schedules", "programs"], "every script, every sequence of slice budgets and every moment a forced yield may be requested",
  "The tests run one fixed loop with one fixed budget; the space of (program, preemption point) pairs is what has to be covered.",
  ["vm/vm.cpp", "wrench.h"],
  [("countdown at branch/jump opcodes and the common yield exit", "vm/vm.cpp CHECK_FORCE_YIELD, doYield"),
   ("resume path of a function call on a yielded context", "vm/vm.cpp wr_callFunction, yieldContinue")],
  ["host callbacks", "wr_getGlobalRef", "return values of wr_run/wr_callFunction/wr_continue", "wr_getLastError"])

p("C02", "Scripts sharing a state do not disturb one another",
  "When several scripts live in one state (even several instances of the same bytecode image) and the host runs, calls, slices, continues and destroys them in any interleaving, each script behaves exactly as it would alone: same host calls, same globals, same results, same errors. The only channels between them are the host's own functions and the message box. Destroying or failing one script leaves the others runnable and intact.",
  ["schedules", "histories"], "every interleaving of run, call, continue, yield, fault and destroy over any set of scripts",
  "Tests create at most a few contexts and run them in one order.",
  ["vm/vm.cpp", "utils/utils.cpp", "vm/gc.cpp"],
  [("per-context stack, globals, allocation list and yield state", "utils/utils.cpp wr_createContext"),
   ("context list maintenance", "utils/utils.cpp wr_destroyContext")],
  ["host callbacks", "wr_getGlobalRef", "return values"])

p("C03", "Garbage collection timing is unobservable",
  "Whatever the collection threshold is, and however it is changed while scripts run, a script computes the same results as when no collection ever happens: no live string, array, hash table, struct or value on its way through an expression, call, yield or iteration is ever reclaimed or altered. Collection never touches memory that is no longer allocated.",
  ["schedules", "programs"], "every script and every placement of collections among its allocations",
  "Tests use the default threshold, so a collection falls on a handful of fixed points; a root missed by the marker only shows when a collection lands on one instruction.",
  ["vm/gc.cpp", "vm/vm.cpp", "vm/gc_object.cpp", "lib/std_container.cpp", "lib/std_string.cpp", "utils/serializer.cpp"],
  [("mark from permanents, stack and globals, then sweep", "vm/gc.cpp WRContext::gc"),
   ("collection points", "vm/vm.cpp newObjectTable, LiteralString, InitArray, AssignToHashTableAndPop, hashIndexJump, yieldContinue")],
  ["host callbacks", "wr_getGlobalRef"])

p("C04", "Every allocated block is released exactly once",
  "After any history of compiling (successful or not), loading, running, yielding, failing, importing and destroying, every block wrench obtained from the allocator has been returned to it exactly once by the time the script or the state it belongs to is destroyed, apart from blocks handed to the host. Destroying a script, in whatever condition it is in, returns everything that script allocated, and images whose ownership was given away are released with it.",
  ["histories", "crash_points"], "every history of API calls, with destruction at every point and every script condition",
  "The tests never count blocks and tear everything down from one final state.",
  ["utils/utils.cpp", "vm/gc.cpp", "cc/cc.cpp", "lib/std_sys.cpp", "vm/scheduler.cpp", "wrench.h"],
  [("context and state destruction", "utils/utils.cpp wr_destroyContextEx, wr_destroyState"),
   ("allocation list swept on destruction", "vm/gc.cpp WRContext::gc")],
  ["the allocator installed with wr_setGlobalAllocator"])

p("C05", "Unreachable data is reclaimed, so memory stays bounded",
  "A script whose reachable data stays bounded runs in bounded memory however long it runs and however it is sliced, yielded or called: once data can no longer be reached from its globals, its stack or its host, it is returned to the allocator after a bounded amount of further allocation, set by the collection threshold.",
  ["histories", "programs", "schedules"], "every script with bounded live data, every run length, threshold and slicing",
  "Tests run briefly and measure no memory.",
  ["vm/gc.cpp", "vm/vm.cpp", "vm/gc_object.cpp"],
  [("allocation accounting that triggers collection", "vm/gc.cpp WRContext::getSVA"), ("sweep", "vm/gc.cpp WRContext::gc")],
  ["the allocator installed with wr_setGlobalAllocator"])

p("C06", "A failed allocation ends the run cleanly",
  "In a build that handles allocation failure, if any allocation made while a script executes fails, the script stops at that instruction with the out-of-memory error instead of crashing, looping or continuing with damaged data; everything it did before is exactly what it would have done, other scripts are unharmed, and the script and state can still be destroyed without leaking or touching freed memory.",
  ["fault_sequences", "programs"], "every script and every choice of failing allocations during its execution",
  "No test makes an allocation fail.",
  ["vm/vm.cpp", "vm/gc.cpp", "vm/gc_object.cpp", "utils/utils.cpp", "lib/std_string.cpp", "lib/std_container.cpp"],
  [("global failure flag checked on every instruction", "vm/vm.cpp MALLOC_FAIL_CHECK"), ("failure paths of object allocation", "vm/gc.cpp WRContext::getSVA")],
  ["wr_getLastError", "the allocator"])

p("C07", "Stack exhaustion is reported, never overruns",
  "In a build with stack protection, for any script and any configured stack size, execution either behaves exactly as with an ample stack or stops with the stack-overflow error; it never reads or writes outside the stack it was given, whether the demand comes from recursion, locals, arguments from the host, deep expressions, imported code or host callbacks. Afterwards the state and its other scripts still work.",
  ["programs", "configurations"], "every script, stack size and call pattern",
  "One infinite-recursion test with one stack size.",
  ["vm/vm.cpp", "utils/utils.cpp"],
  [("limit checks on push and call", "vm/vm.cpp CHECK_STACK, callFunction")],
  ["wr_getLastError", "host callbacks"])

p("C08", "No script can hold the processor past its slice",
  "With a slice budget of N set, or after the host requests a forced yield, control returns to the host after at most a small bounded multiple of N loop iterations or jumps, whatever kind of loop the script spins in. The script is then suspended and resumable, and a budget of zero never preempts.",
  ["programs", "schedules"], "every looping construct, nesting and budget",
  "Tests preempt two loop shapes only; there are some twenty separate countdown sites.",
  ["vm/vm.cpp"],
  [("countdown sites", "vm/vm.cpp CHECK_FORCE_YIELD"), ("request from outside", "vm/vm.cpp wr_forceYield")],
  ["return to host", "wr_getYieldInfo", "wr_slicesUsedLastCall"])

p("C09", "Yield passes values out and back exactly",
  "A script's yield hands the host exactly the argument values and count the script passed, at any call depth, and evaluates inside the script to exactly the reply the host stored before continuing (or the documented default when it stored none); a yielding program is otherwise indistinguishable from one that made an ordinary host call at that point. Continuing a script that is not suspended is refused with the documented error and changes nothing, and calling any function of a suspended script resumes it instead.",
  ["schedules", "histories"], "every yield placement and argument list, every reply, and every order in which suspended scripts are resumed",
  "Tests yield single scalars from two fixed places and resume at once.",
  ["vm/vm.cpp", "utils/utils.cpp"],
  [("yield and resume", "vm/vm.cpp Yield, wr_continue"), ("yield inspection", "utils/utils.cpp wr_getYieldInfo")],
  ["wr_getYieldInfo", "wr_continue", "wr_callFunction"])

p("C10", "The scheduler runs every task to its own end",
  "Every task given to the scheduler is advanced once per tick until it ends, behaves exactly as if run alone, and finishes within a number of ticks set by its own length, no matter which other tasks are added, removed, finish, loop forever or fault around it. A faulting or finished task is dropped and its memory released, its identifier and error are reported, and removing a task works exactly once and affects no other.",
  ["schedules", "histories", "fault_sequences"], "every sequence of add, tick, remove and task fault, with any budgets",
  "One test with a fixed handful of tasks.",
  ["vm/scheduler.cpp", "vm/vm.cpp"],
  [("round robin over the task list with in-place unlinking", "vm/scheduler.cpp tick, addThread, removeTask")],
  ["WrenchScheduler API", "host callbacks", "the allocator"])

p("C11", "The message box is one shared last-write-wins map",
  "All scripts of a state see one message box: a read returns the most recently written value for that key (a number as itself, a string as its hash) or zero when there is none, a read with clear and an explicit clear remove the entry, and presence is reported accordingly, for any number of keys and any interleaving of scripts. Using the message box never disturbs functions, libraries and constants registered with the state.",
  ["schedules", "histories"], "every interleaving of message operations from any scripts over any keys",
  "Tests touch one key from one script.",
  ["lib/std_msg.cpp", "vm/gc_object.cpp"],
  [("messages stored in the state-wide table", "lib/std_msg.cpp"), ("table probing, growth and removal", "vm/gc_object.cpp")],
  ["msg:: library results"])

p("C12", "A script fault stops that script alone, with the right error",
  "A run-time fault (missing function or library function, halt with a user code, stack overflow, a refused call) stops the script before any later effect, reports its documented error code and returns nothing; the error is cleared by the next successful entry. The faulted script can be called again or destroyed, and every other script in the state goes on as if nothing had happened.",
  ["fault_sequences", "schedules"], "every kind of fault at every point of every script, with other scripts suspended at any point",
  "Tests check a few error codes from top level only.",
  ["vm/vm.cpp", "lib/std_sys.cpp", "utils/utils.cpp"],
  [("error returns of the interpreter loop", "vm/vm.cpp"), ("error reset on entry", "vm/vm.cpp wr_callFunction")],
  ["wr_getLastError", "return values", "host callbacks"])

p("C13", "Damaged bytecode never runs and images are never written",
  "A bytecode image that was truncated, torn, bit-flipped or otherwise altered in storage is rejected with the bad-image error before any of it executes, leaving the state unchanged and leaking nothing. A valid image is only ever read: any number of scripts may run from one read-only copy at once.",
  ["fault_sequences", "inputs", "schedules"], "every image, every truncation length, flipped bit, torn or duplicated block, and every sharing of an image",
  "Tests flip a byte or two of one image and always run from writable memory.",
  ["utils/utils.cpp", "cc/link.cpp", "vm/vm.cpp"],
  [("image hash check on load", "utils/utils.cpp wr_createContext, wr_isBytecodeValid"), ("hash emission", "cc/link.cpp")],
  ["wr_newContext/wr_run/wr_import", "wr_isBytecodeValid", "page protection"])

p("C14", "Serialized values survive transport; damaged ones are refused",
  "Serializing any value made of numbers, strings, arrays and hash tables and deserializing it in any script of any state, at any time and under any collection schedule, gives an equal value. A stream that was cut short or corrupted in storage yields failure or some well-formed value, never a crash, an out-of-bounds access, runaway allocation or a leak.",
  ["inputs", "fault_sequences"], "every value, every truncation point and corruption of its stream, any collection placement",
  "Tests round-trip a few literals and never damage a stream.",
  ["utils/serializer.cpp", "utils/serializer.h", "lib/std_serialize.cpp"],
  [("writer and reader", "utils/serializer.cpp wr_serialize, wr_deserialize")],
  ["wr_serialize/wr_deserialize", "std::serialize/std::deserialize"])

p("C15", "The file library tells the truth under I/O faults",
  "Whatever the storage does (missing files, I/O errors, short reads and writes, full disk, failing open, close or sync), file calls return what was really read or written and report failure as failure: data returned was in the file, a whole-file write reported successful is in the file byte for byte, a written count is what was accepted, and without faults files behave as byte arrays with offsets. No fault crashes the script, leaks a descriptor the library opened itself, or affects another file.",
  ["fault_sequences", "histories"], "every sequence of file operations and injected storage results",
  "Tests use a healthy disk.",
  ["lib/std_io.cpp", "utils/utils.cpp"],
  [("file operations", "lib/std_io.cpp")],
  ["io:: library results", "the simulated file system"])

p("C16", "The TCP library delivers the stream or reports failure",
  "Bytes sent on a connection arrive at the peer in order, unaltered and at most once, and a send reports how many bytes were accepted; receiving returns exactly bytes that were sent and not yet received, or nothing on end of stream, error or timeout. Refused, reset, timed-out and partially accepted operations are reported as such and never crash the script, leak a socket or memory, or expose bytes that were not received.",
  ["fault_sequences", "schedules"], "every interleaving of two or more endpoints and every placement of network faults",
  "No test opens a socket.",
  ["lib/std_tcp.cpp", "lib/std_tcp.h"],
  [("socket operations", "lib/std_tcp.cpp")],
  ["tcp:: library results", "the simulated network"])

p("C17", "Imported code is available, separate, and fails safely",
  "Importing a valid image into a script makes its functions and structs callable from that script with the right arguments and results, while its globals remain its own; importing a damaged or uncompilable one changes nothing and is reported. Imported code that faults, overflows the stack or tries to suspend in the middle of a call stops the caller with the documented error, and importer and imports are released together whenever the importer is destroyed.",
  ["histories", "fault_sequences"], "every set and order of imports, calls through them, faults inside them and destruction points",
  "Tests import once and call simple functions.",
  ["vm/vm.cpp", "utils/utils.cpp", "lib/std_sys.cpp"],
  [("lookup and call through imports on the shared stack", "vm/vm.cpp CallFunctionByHash"), ("import linking and destruction", "utils/utils.cpp wr_import, wr_destroyContext")],
  ["host callbacks", "wr_getLastError", "the allocator"])

p("C18", "Host-owned data is shared by reference and never reclaimed",
  "Containers, arrays and values the host lends to a script, structs the host instantiates and references to globals the host holds stay valid and at the same place for as long as documented, whatever the scripts do, however they are sliced and whenever collection runs; writes by either side are seen by the other. Wrench never frees or moves memory it does not own.",
  ["schedules", "histories"], "every interleaving of host access, script access, collection, slicing and script destruction",
  "Tests use one container for one call.",
  ["utils/utils.cpp", "vm/gc.cpp", "vm/operations.cpp"],
  [("unmanaged containers and raw arrays", "utils/utils.cpp wr_makeContainer, wr_addValueToContainer, wr_addArrayToContainer"), ("permanent objects", "utils/utils.cpp wr_instanceStruct"), ("global references", "utils/utils.cpp wr_getGlobalRef")],
  ["host memory", "wr_getGlobalRef", "wr_getValueFromContainer"])

p("C19", "Script time follows the clock it is given",
  "The millisecond clock a script reads never goes backwards while it runs, even when the wall clock is stepped, and advances by the time that really passed; the calendar time a script reads is the system's calendar time at that moment, steps included.",
  ["fault_sequences", "histories"], "every sequence of clock advances, wall-clock steps and reads",
  "Tests never move a clock.",
  ["lib/std.cpp"],
  [("clock reads", "lib/std.cpp")],
  ["std::time and time::ms results"])

p("C20", "A compiled program means what its source says",
  "The value of every expression and the effect of every statement in a compiled script agree with the language's definition, with and without optimisation.",
  ["programs"], "every program", "A pure function of the source text.",
  ["cc/cc.cpp", "cc/expression.cpp", "cc/optimizer.cpp", "cc/token.cpp"],
  [("compiler and optimiser", "cc/")])
p("C21", "Any source text compiles or is refused with an error",
  "For any source text the compiler terminates, either producing an image that loads or reporting an error, without touching memory it does not own.",
  ["inputs"], "every byte string", "A pure function of the source text.",
  ["cc/cc.cpp", "cc/token.cpp"], [("tokeniser and parser", "cc/")])
p("C22", "Arithmetic, string and math results are the documented ones",
  "Operators and string/math library calls return the documented result for every operand, including division by zero and extreme values, identically in the normal and the compact build.",
  ["inputs", "configurations"], "every operand pair and build", "A pure function of the operands.",
  ["vm/operations_non_compact.cpp", "vm/operations_compact.cpp", "lib/std_math.cpp", "lib/std_string.cpp"], [("operator tables", "vm/operations.cpp")])
p("C23", "Bytecode runs the same on any architecture",
  "An image compiled on one machine runs identically on machines of other endianness, alignment and word size.",
  ["configurations"], "every target architecture", "Needs other hardware.",
  ["vm/vm.h", "cc/link.cpp"], [("byte-wise image reads", "vm/vm.h READ_32_FROM_PC")])
p("C24", "The remote debugger never changes a script's result",
  "Stepping, breaking and inspecting a script over a lossy link never changes what it computes, and the two ends stay in step.",
  ["schedules", "fault_sequences"], "every debugger command sequence and link fault", "No test builds it.",
  ["debug/server_interface_private.cpp", "debug/packet.cpp", "debug/client_debug.cpp"], [("packet protocol", "debug/packet.cpp")])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
