SND = 'Decides the stated rule on every path of the resolved program; the rule is a necessary part of the property, see DESIGN.md.'
TECH = {
 'C01': ('path-sensitive lock typestate analysis over the CFG', SND),
 'C02': ('guarded-by (lock set) analysis with bottom-up summaries', SND),
 'C03': ('effect analysis: blocking and callback effects under the node lock', SND),
 'C04': ('interprocedural lock-order graph, acyclicity', SND),
 'C05': ('abstract interpretation of every guarded entry point with the guard state fixed; effect analysis', SND),
 'C06': ('exhaustive abstract interpretation over all sets of registered callbacks; field pairing', SND),
 'C07': ('abstract interpretation of the policy table and of every dispatch function', SND),
 'C08': ('interprocedural comparison of the entry points of both C interfaces; typed comparison with the Fortran interface blocks', SND),
 'C09': ("abstract interpretation of the option table's type dispatch; typed field/offset pairing", SND),
 'C10': ('constant propagation through parsers and printers over the declared word tables', SND),
 'C13': ('bottom-up summaries of range obligations over the call graph and the policy table', SND),
 'C12': ('capacity obligations summarised bottom-up (ordering facts on every path)', SND),
 'C22': ('typestate of forked processes over all paths', SND),
 'C23': ('resource and setting typestate over all paths', SND),
 'C24': ('constant propagation of every code through the message function; name/value comparison with the Fortran constants; return-constant propagation', SND),
 'C34': ('typestate on every path to a file removal (lstat of the name, regular file, owner, name pattern; last process and empty segment) with format/pattern agreement', SND),
 'C30': ('interpretation of the tool start/end for every module combination; interpretation of each callback for every event kind and endpoint, compared with the event table of the OpenMP tools interface', SND),
 'C29': ('abstract interpretation of every generated C and Fortran wrapper and of the hooks for every routine and mode, agreement of entry and exit, comparison of MPI data-type tables with record layouts', SND),
 'C35': ('sign and path-condition analysis of every floating-point and 64-bit division by abstract interpretation (divisor proved non-zero on each path, in each caller)', SND),
 'C25': ('data-flow of each measured quantity: accumulator exchange, add to the same-named region quantity, reduction members, record copies and arguments, with sample loops unrolled', SND),
 'C26': ("path-sensitive typestate: every store to a thread's state preceded by the accounting of the same sample; per-state evaluation of the accounting; event-to-state table", SND),
 'C27': ('path-sensitive pairing of the started flag with the open list under one lock, checked-then-acted in the same critical section; result and elapsed-time terms', SND),
 'C17': ('exhaustive interpretation of all attach/detach sequences of every segment module with the segment contents unconstrained; start followed by end for every combination of options', SND),
 'C36': ('typestate of trace events over every path of the instrumented build; interpretation of the event writer for every type, value and action', SND),
 'C19': ('data-flow of every atomic update (expected value, new value, decision and result must come from one read), plus balance of the CPU counter by comparing symbolic terms', SND),
 'C31': ("interpretation of every pool and queue operation on a symbolic table, balance and sign of every counter decided from the path's linear facts (Fourier-Motzkin elimination)", SND),
 'C18': ('typed inspection of every shared record, data-flow of the process-shared attribute to each initialisation, symbolic comparison of segment sizes with record layouts', SND),
 'C32': ('path-sensitive typestate of the barrier record (participants, object, lock) over all operations, and of the references each process keeps', SND),
 'C20': ('path-sensitive definite-initialisation analysis of locals, CPU sets, malloc blocks and out-parameters with per-outcome callee summaries', SND),
 'C28': ('abstract execution of the report writers: the text each format emits on every path, with a distinct stand-in per value, is parsed and every name compared with the field its value comes from', SND),
 'C11': ("value-range analysis: for every bounded or unbounded text write (snprintf, strcpy, memcpy, strncpy, sprintf) the room left in the destination, as a linear form over the object's size, against the longest text that can be produced; flag-set writers run over every value; mask writers and allocators run over families of masks", SND),
 'C33': ('abstract execution with two readings of the clocks (before and after a million seconds): every wait for another process ends and reports once the time has passed; typestate of locks with a time limit; typestate of condition variables and of the changes of their predicate', SND),
 'C16': ('abstract execution of every cleanup function and of the orderly finalization of the same segment over all assignments of dead, live and no process to the pid fields: effect comparison, remaining references, effects on live records; typestate of the scan for dead processes', SND),
 'C14': ('bottom-up summaries of the notifications each table operation leaves per result; concrete interpretation of every policy operation over those lists; interpretation of message sender, queue and receiver', SND),
}
NA = {
 'C50': 'Quantifies over the contents of the shared CPU table along every interleaving of every process; no static argument in reach bounds those contents (the structural parts are C02, C13, C15).',
}
