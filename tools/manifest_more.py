T.update({
 'C14': ('symbolic execution of every waiting operation against nondeterministic reads, system calls and pool; SMT proof at each blocking call and return', 'model_checking'),
 'C15': ('symbolic execution of waits and notifications; SMT proof that futex words, flags, counts, locks and addresses match', 'model_checking'),
 'C16': ('symbolic execution of timed waits; deadlines decided exactly by SMT over linear integer arithmetic', 'model_checking'),
 'C17': ('symbolic execution of all inter-process operations with a symbolic address; SMT proof of address independence; no pool or private futex', 'model_checking'),
})
NOTE.update({
 'C14': 'All values, all outcomes of system calls; up to 3 (thorough 4) blocking calls per operation; Linux futex and lock-pool back ends; the waiting functions of the real pool (futex, pthread) against the contract used.',
 'C15': 'All addresses, values; Linux futex and lock-pool back ends; the real pool notification with 1-3 sleepers (schedules: C09).',
 'C16': 'All deadlines/durations/clock readings within 2^61 ns on ten clock types; up to 2 blocking calls followed; the real pool waits for all positive durations; clocks and futex behave as documented.',
 'C17': 'All values and addresses; the listed configurations; results and indivisibility included; 16-byte polling waits without AVX are left to the ordinary-operation part.',
})

T.update({
 'C10': ('symbolic execution of bounded histories of the real lock-pool functions with symbolic addresses and failing allocations; SMT-decided lookups', 'model_checking'),
 'C11': ('symbolic execution of every address-search implementation over symbolic tables; SMT proof of the result', 'other'),
})
NOTE.update({
 'C10': 'All addresses; histories of up to 5 (thorough 7) registrations/departures/exit cleanup plus guided longer ones through table growth; 1 (2) allocation failures.',
 'C11': 'All table contents and addresses for sizes 0-71 (thorough 0-191); generic, SSE2, SSE4.1 (legacy and VEX encoded) and the processor dispatch.',
})
T.update({
 'C07': ('symbolic execution of every lock-based operation under interference plus the real lock selection with a symbolic hash; SMT proof of one section, one lock per address', 'model_checking'),
 'C18': ('symbolic execution of every operation, wait and query; SMT-decided claims compared with lock pool, allocation and system-call use', 'other'),
})
NOTE.update({
 'C07': 'All values, addresses and interference outside the section; fallback and native configurations; pool sizes 2^8 and 2^4 (thorough also 2^0, 2^1, 2^9), futex and pthread variants.',
 'C18': 'All values and orders of the listed types in all configurations; feature macros of 21 types and both fences.',
})
T.update({
 'C08': ('bounded model checking with a SAT solver: threads extracted from the real lock pool and operations by symbolic execution, all interleavings; races by happens-before', 'model_checking'),
 'C09': ('bounded model checking with a SAT solver: the extracted threads with a futex model; no reachable state strands a thread', 'model_checking'),
})
NOTE.update({
 'C08': '2-3 threads, 1-2 operations each, 18-26 steps quick (30-63 thorough), futex variant, x86-64; spin counts abstracted; waiter registration held (see C10).',
 'C09': '2-3 threads (lockers, waiters, timed waiters, notifiers), interrupted waits, any wake choice; 24-32 steps quick (34-72 thorough); futex variant.',
})
T.update({
 'C12': ('symbolic execution yields the access signature of every operation path; SMT decides litmus programs over all compiler reorderings and x86-TSO executions', 'model_checking'),
 'C13': ('as C12 for sequentially consistent operations and fences: SMT over all compiler reorderings and x86-TSO executions of litmus programs', 'model_checking'),
})
NOTE.update({
 'C12': 'All executions of message passing, load buffering, release-sequence and three-thread programs for every distinct pair of releasing/acquiring signatures per type; 1 failed CAS attempt; x86-64.',
 'C13': 'All executions of SB, R, 2+2W, IRIW (operations, fences, mixed), MP/LB with fences, signal fences; every distinct pair of signatures across types of a configuration; x86-64.',
})
