#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

C = "src/LB_comm/"; K = "src/LB_core/"; S = "src/support/"; A = "src/apis/"; N = "src/LB_numThreads/"; L = "src/LB_policies/"; M = "src/LB_MPI/"

prop("C01", "Every operation releases every lock it takes",
 "Whatever path an operation takes - success, error code, early exit - every lock it acquired (node-wide shared-memory lock, barrier lock, per-process mutex) is released before it returns, exactly once. No operation re-acquires a non-recursive lock it already holds or releases one it does not hold, so no call can leave another thread or process of the node blocked for ever.",
 ["inputs","programs","histories"], "every path through every function of the library, for any argument, table content and return code of callees",
 "Tests walk the success path and a few error returns of each operation; a lock left held on a rarely taken return only shows when a second process contends for it.",
 [C+"shmem.c", C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", C+"shmem_barrier.c", C+"shmem_async.c", C+"shmem_lewi_async.c", K+"node_barrier.c", K+"DLB_talp.c", N+"omptm_free_agents.c"],
 [("shmem_lock/shmem_unlock pairs", C+"shmem.c"), ("module mutexes around open/close", C+"shmem_*.c"), ("regions and samples mutexes", K+"DLB_talp.c")],
 observe=["return of any public function"])

prop("C02", "Node-wide tables are only touched under their lock",
 "The records that several processes or threads share (CPU table, process table, TALP region table, barrier table, asynchronous-lending pool, message queues, the registry of open segments and TALP region and sample registries) are modified only while the lock that guards them is held. Decisions that lead to a modification are taken on values read while that lock is held.",
 ["schedules","programs","histories"], "every interleaving of threads and processes; every access site of the shared records",
 "Unit tests run the operations one after another in one process; a store outside the critical section is invisible unless another process runs in that window.",
 [C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", C+"shmem_barrier.c", C+"shmem_async.c", C+"shmem_lewi_async.c", K+"DLB_talp.c", K+"node_barrier.c"],
 [("critical sections", "shmem_lock..shmem_unlock blocks of "+C+"shmem_*.c"), ("regions_mutex / samples_mutex", K+"DLB_talp.c")],
 [("shdata", "the mapped shared segment of each module", C+"shmem_*.c"), ("talp_info->regions, open_regions, samples", "TALP registries", K+"DLB_talp.c")])

prop("C03", "No user code and no waiting on others while the node lock is held",
 "While an operation holds a node-wide shared-memory lock it never runs a user-registered callback and never blocks on another process, on a helper thread or on a timer. The node-wide lock is therefore always held for a bounded amount of local work.",
 ["schedules","programs"], "every call chain reachable from inside a node-wide critical section",
 "A callback executed inside the critical section works in any single-process test; it deadlocks only if the callback calls the library again or the peer that is waited for needs the lock.",
 [C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_async.c", C+"shmem_barrier.c", L+"lewi_mask.c", K+"DLB_kernel.c"],
 [("task arrays filled under the lock, resolved after it", L+"lewi_mask.c"), ("lock dropped around polling", C+"shmem_procinfo.c")])

prop("C04", "Locks are always nested in one order",
 "Whenever two locks of the library are held together they are acquired in one fixed order, node-wide. No set of threads or processes can wait for each other's locks in a cycle.",
 ["schedules","programs"], "every pair of locks acquired on any call chain, all interleavings",
 "An inverted order only deadlocks under one particular interleaving of two processes; tests never create it.",
 [C+"shmem.c", C+"shmem_barrier.c", C+"shmem_procinfo.c", C+"shmem_cpuinfo.c", K+"node_barrier.c", K+"DLB_talp.c"],
 [("module mutex taken before segment lock", C+"shmem_*.c"), ("segment lock taken before barrier lock", C+"shmem_barrier.c")])

prop("C05", "Uninitialised or disabled library refuses every call without effect",
 "Every public call made before initialization or after finalization returns the not-initialized code, every load-balancing call made while that feature was not requested returns the not-enabled code, and every one made while it is switched off returns the disabled code. In these cases nothing else happens: no shared record changes and no callback runs.",
 ["programs","histories"], "every public entry point, any order of calls (before init, after finalize, while disabled), both the global and the handle-based interfaces",
 "Tests call a handful of functions in the wrong state; the guarantee is for each of about one hundred entry points.",
 [A+"DLB_interface.c", A+"DLB_interface_sp.c", A+"DLB_interface_talp.c", K+"DLB_kernel.c"],
 [("initialized flag checked first in each entry point", A+"DLB_interface*.c"), ("feature / enabled guards", K+"DLB_kernel.c")],
 [("dlb_initialized, lewi_enabled", "per-process state flags", K+"spd.h")])

prop("C06", "The callback registered for an event is the one invoked, with its argument",
 "For each event, the function and argument that the user registers are exactly the ones returned by a query and the ones used when that event fires; a registration for one event never affects another. An event with no registered function is reported as missing or handled by the documented fallback, never by calling a null function.",
 ["programs","inputs"], "every event kind, any subset of registered callbacks and argument values",
 "Tests register callbacks with null or identical arguments and rarely combine fallbacks, so crossed functions or arguments go unnoticed.",
 [N+"numThreads.c", N+"numThreads.h"],
 [("set / get / invoke switch cases", N+"numThreads.c")],
 [("callback and argument slot per event", "programming model interface", N+"numThreads.h")])

prop("C07", "Each load-balancing call reaches exactly its own operation in the active policy",
 "A load-balancing call performs the same-named operation of the selected policy with the caller's own CPU, count or mask, and returns that operation's result code. An operation that the selected policy does not provide returns the no-policy code, and no operation slot is ever left without a target.",
 ["configurations","programs"], "every (public call, policy) pair",
 "Tests exercise some calls under some policies; a crossed or missing entry in the dispatch table needs that exact combination.",
 [K+"lb_funcs.c", K+"DLB_kernel.c", A+"DLB_interface.c"],
 [("dispatch table filled with defaults then per policy", K+"lb_funcs.c"), ("kernel entry functions", K+"DLB_kernel.c")])

prop("C08", "Global, handle-based and Fortran interfaces offer the same operations",
 "Each operation offered by the global interface, by the handle-based interface and by the Fortran interface performs the same internal operation with the same arguments and returns the same code. Everything declared in the public headers is exported by the library, and constants shared by the C and Fortran interfaces have equal values.",
 ["programs","configurations"], "every public declaration in each language binding",
 "No test includes the Fortran headers' constants or compares interfaces; each binding is tested, if at all, on its own.",
 [A+"DLB_interface.c", A+"DLB_interface_sp.c", A+"DLB_interfaceF.c", A+"dlb_sp.h", A+"dlbf.h", A+"dlbf_talp.h", A+"dlbf-errors.h", A+"dlb_errors.h", A+"dlb_types.h"],
 [("thin wrappers over the kernel", A+"DLB_interface*.c"), ("Fortran interface blocks with bind(c)", A+"dlbf.h")])

prop("C09", "Options are stored, read back, compared and printed with their own type",
 "Each command-line or environment option is stored in, compared with, copied to and printed from the one settings field of its own type, its default value is valid, and distinct options never share a field except as documented aliases. Options marked read-only are refused when changed after initialization, with the permission error.",
 ["inputs","configurations"], "every option in the table and every way of setting or reading it",
 "Tests cover a few options per type; a mismatch between the declared kind of an option and its storage corrupts a neighbour silently.",
 [S+"options.c", S+"options.h"],
 [("options dictionary", S+"options.c"), ("per-kind switches to set, get, compare, copy, print", S+"options.c")])

prop("C10", "Symbolic option values parse and print consistently",
 "Every symbolic value that an option accepts is documented, maps to a distinct value of its kind and prints back as the same word; every value of the kind has a word. A value containing no known word prints as the word for the empty value, independent of what was printed earlier.",
 ["inputs","histories"], "every symbolic value of every option kind, any order of conversions",
 "Tests check some words in one order; state left over from an earlier conversion and table entries out of step need other combinations.",
 [S+"types.c", S+"types.h"],
 [("parallel tables of values and words", S+"types.c"), ("conversion functions", S+"types.c")])

prop("C11", "Text built in fixed-size buffers always fits",
 "No text the library formats or copies into a buffer of limited size - option values, CPU lists, file names, process names, table rows - can exceed it, whatever the lengths of the values involved; longer text is truncated or the buffer is enlarged first.",
 ["inputs","configurations"], "every formatting or copying operation into a bounded buffer, all values of its arguments",
 "Tests use short values; an overflow needs the longest combination and usually corrupts memory silently.",
 [S+"options.c", S+"types.c", S+"mask_utils.c", S+"debug.c", C+"shmem.c", C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", K+"DLB_talp.c"],
 [("bounded formatting functions and size computations", "all of src/")])

prop("C12", "Result lists never exceed the caller's capacity",
 "A query that fills a caller-supplied array of stated capacity writes at most that many elements, writes nothing when the capacity is zero or negative, and reports a count no larger than the capacity.",
 ["inputs","histories"], "every list-returning query, any capacity including 0 and negatives, any number of registered processes or regions",
 "Tests always pass a capacity larger than the number of registered processes.",
 [C+"shmem_procinfo.c", C+"shmem_talp.c", A+"DLB_interface_drom.c", A+"DLB_interface_talp.c", A+"DLB_interface_stats.c"],
 [("capacity test before each element is written", C+"shmem_procinfo.c")])

prop("C13", "CPU numbers outside the node are rejected",
 "A CPU number given by the user is checked against both ends of the node's range before it selects any per-CPU record; a negative or too large number is answered with an error and touches no record. CPU numbers taken from a user mask are used only while below the node size.",
 ["inputs"], "every CPU-taking call, any integer",
 "Tests pass valid CPU numbers, or one just past the end; a negative number indexes memory before the table.",
 [C+"shmem_cpuinfo.c", S+"mask_utils.c", L+"lewi_mask.c"],
 [("range check at the head of per-CPU operations", C+"shmem_cpuinfo.c")])

prop("C14", "Every CPU movement decided is carried out",
 "When an operation on the node's CPU table reports CPUs that must be switched on or off, each notification for the calling process is carried out before the policy operation returns, whatever its result; in asynchronous mode each notification for another process is sent, once, to that process (and a CPU it has to switch off is given back in the table), and in polling mode other processes are left to find out by themselves. Nothing is dropped, invented or delivered to another process. A process leaving a blocking call already runs on its CPUs and is not told again to switch them on. A message to a process's helper thread is stored in the next free place of that process's queue, never over a waiting one, and its helper does exactly what the message says with the argument that was sent.",
 ["programs","histories"], "every policy operation, both delivery modes (polling and asynchronous), any number of affected CPUs and processes",
 "Tests check a few operations in polling mode; a missing delivery in one operation leaves a CPU idle or used twice with no error.",
 [L+"lewi_mask.c", C+"shmem_cpuinfo.c", C+"shmem_async.c"],
 [("task array resolved after each successful table operation", L+"lewi_mask.c"), ("one message per task, addressed to its process", C+"shmem_async.c")])

prop("C15", "A change of a CPU's user is recorded everywhere at once and notified",
 "Whenever the process using a CPU changes, the record of that CPU and the node-wide summaries (which CPUs are lent and unused, which cores are shared) are updated within the same critical section. The process that gains the CPU is told to start using it and the process that loses it is told to stop.",
 ["histories","programs"], "every operation of the CPU table and every state of the CPU involved",
 "Tests check the visible outcome of short call sequences; a summary left stale shows only in later operations on other CPUs.",
 [C+"shmem_cpuinfo.c"],
 [("user assignment, summary update and task push", C+"shmem_cpuinfo.c")],
 [("guest, free_cpus, occupied_cores", "CPU table", C+"shmem_cpuinfo.c")])

prop("C16", "A dead process is cleaned up as thoroughly as an orderly exit",
 "When a process attached to a shared segment no longer exists, the next attach removes every trace of it - its slot, the CPUs it owned or used, its pending requests, its published regions - that its own orderly finalization would have removed, changes no record of a live process, and frees its place in the list of attached processes; a process that exists is never cleaned up, whoever it belongs to. Each segment kind provides such a cleanup, and it works with what is known while the segment is being opened. (Barriers do not record who joined them; see C26.)",
 ["crash_points","histories"], "a crash of any process at any point outside a critical section, in every segment kind",
 "Tests never kill a registered process; the recovery code is hardly executed.",
 [C+"shmem.c", C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", C+"shmem_barrier.c", C+"shmem_async.c", C+"shmem_lewi_async.c"],
 [("pid consistency check and per-module cleanup", C+"shmem.c")])

prop("C17", "Attach and detach of shared segments balance",
 "Each module maps its segment on the first attach of a process and unmaps it on the last detach, counting attaches exactly once per successful attach, also when an attach fails half way. After the last detach no use of the segment is possible, and the last process of the node removes it.",
 ["histories","fault_sequences"], "every sequence of init, external attach, failed init and finalize in each module",
 "Tests attach and detach in pairs; a failure between the two leaks a reference and keeps the segment for ever.",
 [C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", C+"shmem_barrier.c", C+"shmem_async.c", C+"shmem_lewi_async.c"],
 [("open/close functions with an attach counter", C+"shmem_*.c")])

prop("C18", "Shared segments are position-independent and process-shared",
 "Nothing that a process reads from a shared segment depends on another process's address space: segments contain no addresses (but those a helper thread left for itself), and every lock, condition or barrier object inside one is created for use between processes. The size of a segment covers every record that is accessed in it, and attaching never shortens a segment in use.",
 ["configurations","schedules"], "every type placed in shared memory and every synchronization object inside it",
 "All tests map the segment once in one process, where a stored address or a private lock works.",
 [C+"shmem.c", C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", C+"shmem_talp.c", C+"shmem_barrier.c", C+"shmem_async.c", C+"shmem_lewi_async.c"],
 [("segment layouts", C+"shmem_*.c"), ("process-shared attributes", C+"shmem.c, shmem_barrier.c, shmem_async.c")])

prop("C19", "Lock-free updates are never lost or double counted",
 "Where shared counters and flags are updated without a lock, the new value is computed from the very value that the update is conditional on, the update is retried or abandoned when it did not take place, and its result is only used when it did.",
 ["schedules"], "every conditional atomic update, all interleavings",
 "Unit tests run these updates with no contention, so the failing branch is never taken.",
 [C+"comm_lend_light.c", S+"atomic.h", N+"omptm_free_agents.c", N+"omptm_role_shift.c", K+"DLB_talp.c"],
 [("compare-and-swap loops", S+"atomic.h, "+C+"comm_lend_light.c")])

prop("C20", "CPU sets and records are initialised before they are read",
 "No operation reads a local CPU set, record or variable that has not been given a value on the path taken; in particular no CPU is lent, reclaimed or bound because of leftover memory content.",
 ["inputs","programs"], "every local variable and every path",
 "Leftover stack content is usually zero in a short test program.",
 [N+"omptm_free_agents.c", N+"omptm_role_shift.c", N+"omptm_omp5.c", L+"lewi_mask.c", C+"shmem_cpuinfo.c", C+"shmem_procinfo.c", K+"DLB_kernel.c", K+"DLB_talp.c"],
 [("explicit clearing of each set before use", "all of src/")])

prop("C21", "Released memory and handles are never used again",
 "After an object, handle or segment is released, no later step of the same or a following call reads or writes it: every remaining reference is dropped or overwritten at the time of release. Releasing something twice is impossible.",
 ["programs","histories"], "every release site and every path after it, including error paths and later calls",
 "Use after release normally goes unnoticed in a short test because the memory still holds its old content.",
 [K+"spd.c", A+"DLB_interface_sp.c", K+"DLB_talp.c", C+"shmem.c", C+"shmem_procinfo.c", C+"shmem_lewi_async.c", L+"lewi_mask.c", N+"omptool.c"],
 [("pointers reset after release", "all of src/")])

prop("C22", "A helper child process never continues as its parent",
 "When the library or a tool starts a child process to run a command, the child either becomes that command or terminates; it never returns into the code of the caller. The parent waits for the child it started.",
 ["fault_sequences"], "every child start, including failure to find or run the command",
 "Tests never run with the external command missing.",
 [C+"shmem_procinfo.c", "src/utils/dlb_run.c", "src/utils/dlb_taskset.c"],
 [("fork / exec sequences", C+"shmem_procinfo.c")])

prop("C23", "Process-wide settings changed temporarily are always put back",
 "If a library call changes a setting that belongs to the whole thread or process - numeric locale, signal action, output buffering, error state of a file - it restores it on every path before returning, and resources acquired only for that call are released.",
 ["inputs","programs"], "every path of every function that changes such a setting or opens a file",
 "Tests look at the produced report, not at the state of the process afterwards, and never take the early exits.",
 [S+"talp_output.c", S+"mask_utils.c", S+"debug.c", K+"DLB_talp.c"],
 [("save / restore of locale, open / close of files", S+"talp_output.c")])

prop("C24", "Error codes and messages agree everywhere",
 "Each code the library can return is a documented code, has its own message that names that code, and has the same value in every language binding; no success value has an error message and no code is without one.",
 ["inputs","configurations"], "every return statement of the public interface and every documented code",
 "Tests compare a few messages; Fortran values and rarely returned codes are never checked.",
 [S+"error.c", A+"dlb_errors.h", A+"dlbf-errors.h"],
 [("message table indexed by code", S+"error.c")])

prop("C25", "Every measured quantity reaches the region record exactly once",
 "Each quantity a thread accumulates (time in each state, counters, event counts) is moved, once, into the same quantity of every region open at that time, and from there to the published and reported records; the thread's accumulator is emptied as it is read. No quantity is dropped, duplicated or added to another one on the way.",
 ["histories","programs"], "every quantity, each stage of the flow (thread, aggregate, region, node record)",
 "Tests check some quantities after one or two region changes; a quantity forgotten in one stage is only visible with the matching workload.",
 [K+"DLB_talp.c", K+"talp_types.h", S+"perf_metrics.h", S+"talp_output.h"],
 [("sample aggregation and region update", K+"DLB_talp.c")])

prop("C26", "Time is always charged to the state the thread was in",
 "Whenever a thread changes state (useful, in MPI, not useful, disabled) the time elapsed so far is first charged to the state it is leaving. No change of state, and no start or end of a region, happens without that accounting.",
 ["histories","schedules"], "every state change on every path of the MPI, OpenMP and user entry points",
 "Tests assert non-zero times; misattributed intervals pass.",
 [K+"DLB_talp.c"],
 [("sample update before each state change", K+"DLB_talp.c")])

prop("C27", "A region is open exactly between its start and its stop",
 "A monitoring region is in the set of open regions if and only if it is started: start, stop, reset and finalization change both together, under the registry's lock, and elapsed time is accumulated when and only when an open region is closed. Starting an open region or stopping a closed one changes nothing and is reported.",
 ["histories","schedules"], "any sequence of start, stop, reset, report and finalize on any number of nested or overlapping regions, from several threads",
 "Tests use well-nested sequences from one thread.",
 [K+"DLB_talp.c"],
 [("started flag and open list", K+"DLB_talp.c")])

prop("C28", "All report formats carry the same complete data, in the declared layout",
 "In each report format every recorded value is written unchanged under its own name: the number, order and types of the values match the header or the field names, JSON and XML are well-formed and CSV rows are terminated whatever combination of reports is written, a header appears exactly in new CSV files, every record and every process appears once and in the order recorded, the same quantities appear in every format, and numbers are written in the C locale. The report consumers only rely on fields that the writer produces. (Names given by the user are taken to be free of quotes and markup.)",
 ["inputs","configurations"], "every report kind (POP metrics, raw, node, process) in every output format",
 "Tests compare a couple of formats with fixed data and do not parse the others.",
 [S+"talp_output.c", S+"talp_output.h", "talp-pages/talp_pages/io/dataframe_handling.py", "talp-pages/talp_pages/common.py"],
 [("one writer per format and report kind", S+"talp_output.c")])

prop("C29", "Every intercepted MPI call is bracketed and forwarded unchanged",
 "Each intercepted MPI routine enters the library, calls the real routine once with exactly the caller's arguments, leaves the library and returns the real result. Entering and leaving classify the call identically, so a lend on entry is always matched by its recovery on exit, and messages exchanged by the library itself are described with the types and layout of the data sent.",
 ["programs","configurations"], "every MPI routine in the interception table, C and Fortran, every lending mode",
 "Unit tests are built without MPI; no test goes through the generated interception code.",
 [M+"MPI_intercept.c.in", M+"MPI_interface.c.in", M+"process_MPI.c", M+"mpicalls.json", "scripts/pygen.py", K+"DLB_talp.c"],
 [("generated wrappers", M+"*.in"), ("before/after hooks", M+"process_MPI.c"), ("derived datatypes", K+"DLB_talp.c")])

prop("C30", "Each OpenMP runtime event reaches every interested module as that event",
 "Every event announced by the OpenMP runtime is delivered to the measurement module and to the thread-management module as the same event with the same data, begin and end not exchanged, and only if the module handles it. Every callback registered with the runtime is the handler of that event and is unregistered at the end.",
 ["programs","histories"], "every runtime event kind and every combination of active modules",
 "Tests install a single module and check call counts for some events.",
 [N+"omptool.c", N+"omptool.h"],
 [("event tables and dispatchers", N+"omptool.c")])

prop("C31", "Asynchronous lending neither creates nor destroys CPUs",
 "In the asynchronous lending pool, each operation that adds CPUs to a process or to the idle pool takes the same number from the pool or from processes, and pending requests never change that balance. The total of assigned plus idle CPUs equals the total the registered processes brought in, no count ever goes below zero, nothing is reclaimed from a process beyond its surplus, and the counts reported to the caller and notified to others are the recorded ones. The queue of requests hands out, keeps and returns exactly the CPUs it is given.",
 ["histories","schedules"], "any sequence of lend, borrow, acquire, reclaim, init and finalize by any number of processes",
 "Tests check a few fixed sequences with two processes.",
 [C+"shmem_lewi_async.c"],
 [("paired updates of idle pool and per-process counts", C+"shmem_lewi_async.c")],
 [("idle_cpus, current_ncpus, initial_ncpus", "async pool", C+"shmem_lewi_async.c")])

prop("C32", "Node barrier membership and the barrier object stay in step",
 "Whenever the number of participants of a node barrier changes, the barrier object is rebuilt for the new number (or removed with the last participant) before anyone can wait on it again, with no waiter inside. Waiting is only possible on a barrier that exists, and a process leaves every barrier it joined exactly once.",
 ["schedules","histories"], "any order of register, attach, detach, wait and finalize by the processes of a node",
 "Tests run the waits in a few forked processes with one barrier and a favourable timing.",
 [C+"shmem_barrier.c", K+"node_barrier.c"],
 [("rwlock around rebuild and wait", C+"shmem_barrier.c")])

prop("C33", "Waits on other processes are always bounded",
 "Wherever an operation waits for another process to act (the creator of a segment, the node lock at attach, the lock of a group barrier at attach and detach, a synchronous query or change of a process mask) it gives up after a bounded time and reports the failure: DROM operations return DLB_ERR_TIMEOUT, never success, when the target has not acted in time. A wait of one thread for another checks its condition under the lock before and after every wait, and whoever changes the condition holds that lock and wakes the waiter. (Waiting inside a group barrier for the other participants is outside this property.)",
 ["schedules","crash_points"], "every waiting loop, with the awaited process dead or silent",
 "In tests the awaited process always answers.",
 [C+"shmem.c", C+"shmem_procinfo.c", C+"shmem_async.c"],
 [("deadline tests in polling loops", C+"shmem_procinfo.c"), ("condition variable loops", C+"shmem_async.c")])

prop("C34", "The cleaning tool removes only the user's own DLB segments",
 "The shared-memory tool deletes a file only if it is a regular file, belongs to the user and carries a DLB name, and it recognises every kind of segment that the library creates. Removal of segments by the library itself affects only the segment being closed.",
 ["inputs","configurations"], "any content of the shared-memory directory",
 "No test runs the deletion in a populated directory.",
 ["src/utils/dlb_shm.c", C+"shmem.c", S+"debug.c"],
 [("filters before unlink", "src/utils/dlb_shm.c"), ("segment naming", C+"shmem.c")])

prop("C35", "Ratios are only computed with a non-zero divisor",
 "Every efficiency, average or share derived from measured data is computed by a division whose divisor is known to be non-zero on that path, or is replaced by a defined value; a region that ran for no time, used no CPU or had no process never produces a trap or an undefined metric.",
 ["inputs","histories"], "every division on measured or user-supplied values",
 "Tests always measure something; the empty region and the zero count are not tried in each function.",
 [S+"perf_metrics.h", K+"DLB_talp.c", S+"talp_output.c", C+"shmem_procinfo.c", S+"mask_utils.c"],
 [("guards before divisions", S+"perf_metrics.h")])

prop("C36", "Trace events are always closed",
 "In the instrumented library every trace event opened on entry to an operation is closed by the matching end event on every way out of it, so that the recorded states nest properly.",
 ["programs","configurations"], "every path of every operation that emits trace events",
 "The instrumented library is not used by the tests.",
 [K+"DLB_kernel.c", N+"numThreads.c", M+"process_MPI.c", S+"tracing.h"],
 [("begin/end pairs", K+"DLB_kernel.c")])

prop("C37", "Process slots are exclusive, found and released consistently",
 "A process occupies at most one slot in each shared table; registering needs a free slot or fails with the no-memory code and changes nothing, and releasing frees the slot completely. A failed registration leaves no local or shared reference to the slot.",
 ["histories","inputs"], "any history of registrations and exits, including full tables and process numbers seen before",
 "Tests fill tables with few processes and never reuse a hole in front of an existing slot.",
 [C+"shmem_procinfo.c", C+"shmem_lewi_async.c", C+"shmem_async.c", C+"shmem_talp.c", C+"shmem_barrier.c"],
 [("slot search and registration", C+"shmem_*.c")])

# ---- properties this family cannot decide (declared not applicable) ----
prop("C50", "A CPU is never used by two processes at once",
 "At every moment each CPU of the node has at most one process allowed to run on it, and that process is either its owner or one to which it was lent.",
 ["schedules","histories"], "every history of lending operations by any number of processes",
 "Tests run short histories with two or three simulated processes.",
 [C+"shmem_cpuinfo.c", L+"lewi_mask.c"], [("guest field", C+"shmem_cpuinfo.c")])
prop("C51", "An owner always recovers its lent CPUs",
 "After reclaiming, an owner obtains each of its CPUs again as soon as the borrower returns it or checks its availability, and no other process can obtain it in between.",
 ["schedules","histories"], "every interleaving of reclaim, return and borrow",
 "Tests replay fixed interleavings.",
 [C+"shmem_cpuinfo.c"], [("BUSY state and reclaim", C+"shmem_cpuinfo.c")])
prop("C52", "POP efficiencies are computed by their published formulas",
 "For any measured times and counters the reported efficiencies equal the published definitions and multiply to the parallel efficiency.",
 ["inputs"], "all numeric inputs", "Tests evaluate a few numeric cases.",
 [S+"perf_metrics.h"], [("metric computation", S+"perf_metrics.h")])
prop("C53", "CPU masks survive printing and parsing",
 "Parsing the printed form of any CPU mask yields the same mask, and printing is canonical.",
 ["inputs"], "all masks up to the supported size", "Tests use small masks.",
 [S+"mask_utils.c"], [("parser and printer", S+"mask_utils.c")])
prop("C54", "DROM mask changes reach the target process exactly as requested",
 "A new mask set for a process is what that process obtains at its next poll, CPUs stolen from others are removed from exactly those processes, and returned ones are given back to their former owner.",
 ["schedules","histories"], "all histories of mask changes between several processes", "Tests use fixed sequences.",
 [C+"shmem_procinfo.c"], [("future mask and stolen mask", C+"shmem_procinfo.c")])
prop("C55", "Requests for CPUs are served in order",
 "Pending CPU requests are served first-come first-served per CPU and no satisfied or cancelled request is served later.",
 ["histories"], "all request histories", "Tests queue at most a few requests.",
 [S+"queues.c", C+"shmem_cpuinfo.c"], [("request queues", S+"queues.c")])
prop("C56", "Lending respects the locality and parallelism limits requested",
 "A process never obtains more CPUs than its maximum parallelism nor a CPU outside the affinity allowed by its options, and nearer CPUs are preferred as configured.",
 ["histories","configurations"], "all priorities, topologies and limits", "Tests use one or two topologies.",
 [C+"shmem_cpuinfo.c", L+"lewi_mask.c"], [("candidate lists", L+"lewi_mask.c")])
prop("C57", "TALP pages compute scaling and time series correctly",
 "The generated pages show, for every set of result files, efficiencies scaled against the smallest run and series ordered by time.",
 ["inputs"], "all sets of result files", "Tests use a few data sets.",
 ["talp-pages/talp_pages/analysis/scaling_analysis.py"], [("scaling analysis", "talp-pages/talp_pages/analysis/scaling_analysis.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
