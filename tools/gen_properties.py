#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
D='include/boost/atomic/detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integer read-modify-write operations compute the documented value and result",
 "For every integer atomic (1 to 16 bytes, signed or unsigned, owned or referenced, lock-free or not), every prior value, every operand and every memory order, each arithmetic, bitwise, negate, complement, bit-test and operator-form modification leaves in the object exactly the documented function of the prior value (two's complement wrap-around) and returns exactly what is documented: the old value, the new value, whether the new value is non-zero, or the previous state of the addressed bit. No memory other than the object is changed.",
 ["inputs","configurations"],"all 2^w prior values x all operands x all valid memory orders, for each width, signedness, object kind and build configuration",
 "The API tests check a few dozen value pairs per type; a wrong width, sign extension, immediate, shift or flag condition that only shows for other values passes.",
 [D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_atomic.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"extra_ops_emulated.hpp",D+"core_operations_emulated.hpp",D+"core_ops_gcc_sync.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"integral_conversions.hpp"],
 [("x86 inline assembly arithmetic",D+"extra_ops_gcc_x86.hpp"),("CAS loops",D+"extra_ops_generic.hpp, "+D+"core_ops_cas_based.hpp"),("narrow-on-wide arithmetic",D+"extending_cas_based_arithmetic.hpp"),("lock-based arithmetic",D+"core_operations_emulated.hpp, "+D+"extra_ops_emulated.hpp"),("value<->storage conversion",D+"integral_conversions.hpp, "+D+"bitwise_cast.hpp")])

p("C02","Every lock-free operation takes effect in one indivisible step",
 "Whatever other threads store into the object between any two machine-level accesses made by an operation, a load returns one whole value the object held at some instant, and every modifying operation replaces the whole value at most once, in a single access, by the documented function of exactly the value it replaced, returning a result that belongs to that same replaced value. A failing compare-exchange or a plain load leaves the object's value unmodified.",
 ["schedules","inputs"],"all values written by other threads at every point between two accesses, all initial values and operands, all memory orders",
 "The atomicity tests run two threads for a while on 8-to-64-bit exchange and add; a window of a few instructions, or one on a rarely used operation or width, is practically never hit.",
 [D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_atomic.hpp",D+"core_ops_gcc_sync.hpp",D+"core_ops_cas_based.hpp",D+"cas_based_exchange.hpp",D+"extending_cas_based_arithmetic.hpp",D+"extra_ops_generic.hpp",D+"extra_ops_gcc_x86.hpp",D+"fp_ops_generic.hpp",D+"extra_fp_ops_generic.hpp"],
 [("single locked instructions",D+"core_arch_ops_gcc_x86.hpp"),("compare-exchange retry loops",D+"extra_ops_generic.hpp"),("128-bit load/store via cmpxchg16b or aligned vector moves",D+"core_arch_ops_gcc_x86.hpp")])

p("C03","compare_exchange reports, compares and updates exactly as specified",
 "A compare-exchange returns true only if the object held the expected value and then the object holds the desired value; it returns false only if the object's value is left alone and the expected argument then holds the value actually found; the strong form never fails when the value equals the expected one. This holds for every supported type, object kind, width, pair of memory orders and every concurrent modification; on success the expected argument is unchanged.",
 ["inputs","schedules","configurations"],"all (current, expected, desired) values, all success/failure order pairs, arbitrary interference, all types and configurations",
 "Tests use a handful of value triples; wrong register pairing, missing write-back or half-compared wide values appear only for particular values or when another thread intervenes.",
 [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_atomic.hpp",D+"core_ops_gcc_sync.hpp",D+"core_operations_emulated.hpp",D+"bitwise_cast.hpp"],
 [("compare_exchange_strong/weak",D+"core_arch_ops_gcc_x86.hpp, "+D+"core_ops_gcc_atomic.hpp, "+D+"core_operations_emulated.hpp"),("value-to-storage round trip in CAS",D+"atomic_impl.hpp")])

p("C04","Values of every type survive construction, store, load and exchange bit for bit",
 "For every supported value type (bool, enum, integer, pointer, floating point, trivially copyable struct, including sizes that are not powers of two and sizes above 16 bytes) and every value of it, what construction, assignment, store or exchange puts into an atomic is what load, conversion or exchange later returns, bit for bit in every value bit, and an exchange returns the complete previous value. Padding in a value never makes a compare-exchange whose expected operand came from the object itself fail forever.",
 ["inputs","configurations"],"all object representations of each value type incl. all padding contents, all widths, each configuration",
 "Tests store two or three hand-picked values per type; truncation of a byte, a wrong half of a 128-bit pair, or dependence on padding bytes needs other values to show.",
 [D+"atomic_impl.hpp",D+"bitwise_cast.hpp",D+"bitwise_fp_cast.hpp",D+"storage_traits.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp","include/boost/atomic/atomic.hpp"],
 [("bitwise_cast and padding clearing",D+"bitwise_cast.hpp"),("storage selection",D+"storage_traits.hpp"),("load/store/exchange",D+"core_arch_ops_gcc_x86.hpp")])

p("C05","Floating-point, pointer, enum and bool operations have their documented meaning",
 "For every floating-point value (including NaN, infinities, signed zeros) add and sub leave in the object, and return, the IEEE result of the same C++ expression on the value replaced, and negate flips exactly the sign; for pointers every arithmetic operation moves by whole elements of the pointee type and returns pointers accordingly. Under interference these operations too are single indivisible replacements.",
 ["inputs","schedules"],"all operand and prior values of float, double, long double (as opaque 80-bit arithmetic), of all pointers and offsets for several element sizes; arbitrary interference",
 "Tests use a few small numbers and one array; wrong scaling for large or negative offsets, a wrong sign mask, or a stale-value retry is invisible to them.",
 [D+"fp_ops_generic.hpp",D+"extra_fp_ops_generic.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"bitwise_fp_cast.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("floating point CAS loops",D+"fp_ops_generic.hpp"),("sign-bit negate",D+"extra_fp_ops_generic.hpp"),("pointer scaling",D+"atomic_impl.hpp, "+D+"atomic_ref_impl.hpp")])

p("C06","Operations touch only the bytes of the object they are applied to",
 "An operation through an atomic or an atomic reference reads and writes no byte outside the atomic object (respectively the referenced object) apart from the operands handed to it and the library's own lock pool, whatever the size and required alignment of the type. In particular an atomic reference to an object of any size, alone in memory or surrounded by unrelated data, never reads or writes the neighbouring bytes.",
 ["inputs","configurations"],"all values, all value types and sizes incl. 3, 5, 7, 12 and 24 bytes, all operations, each configuration",
 "Neighbouring bytes in the tests are usually padding or unused; an access that is too wide only corrupts data when a neighbour is concurrently live.",
 [D+"atomic_ref_impl.hpp",D+"atomic_impl.hpp",D+"storage_traits.hpp",D+"bitwise_cast.hpp",D+"core_operations_emulated.hpp",D+"core_arch_ops_gcc_x86.hpp"],
 [("lock-free only when object size equals storage size",D+"atomic_ref_impl.hpp"),("storage size selection",D+"storage_traits.hpp")])

p("C07","Non-lock-free operations run entirely under one pool lock chosen by address",
 "Every operation on an object without a lock-free implementation accesses the object only while holding a lock of the shared pool, the lock depends only on the object's address (the same one for every operation kind on that object, always inside the pool), it is released exactly once on every path, and the operation's effect and result are the documented ones. No lock is taken while another is held.",
 ["inputs","schedules"],"all object addresses, values, operands, orders; all operations and all sizes that use the lock pool",
 "Tests run few objects with little contention; an access slipped outside the critical section, a different lock for one operation kind, or an index outside the pool for some addresses is not exercised.",
 [D+"core_operations_emulated.hpp",D+"extra_ops_emulated.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"wait_ops_emulated.hpp",D+"lock_pool.hpp","src/lock_pool.cpp"],
 [("scoped_lock around each emulated operation",D+"core_operations_emulated.hpp"),("address hash and pool index",D+"lock_pool.hpp, src/lock_pool.cpp")])

p("C08","Lock-based operations exclude each other under every thread schedule",
 "For every interleaving of threads operating on the same non-lock-free object, at most one thread is inside the object at a time, no update is lost and no value is torn, and the data written by one operation is visible to the next; this includes waiting and notifying operations that release and reacquire the lock.",
 ["schedules"],"all interleavings of 2-3 threads x 1-2 operations each at the granularity of shared-memory accesses and system calls, incl. spurious wake-ups and interrupted system calls",
 "Lost mutual exclusion in a three-state lock word needs a particular interleaving of the slow path with an unlock, which stress tests hit rarely if ever.",
 ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"core_operations_emulated.hpp"],
 [("lock word state machine: locked, contended, counter",  "src/lock_pool.cpp")])

p("C09","The lock pool never strands a thread",
 "For every interleaving, a thread waiting to enter a lock-based operation is eventually let in once the lock is released, and a thread blocked in a wait on a lock-based object returns once another thread has changed the object and then notified: no wake-up is lost, no thread stays blocked in the operating system while nobody owns the lock and no notification is pending for it.",
 ["schedules","fault_sequences"],"all interleavings of 2-3 threads (lockers, waiters, notifiers), spurious and interrupted kernel waits included",
 "A lost wake-up needs a precise interleaving between queueing, unlock and notify; the tests use generous sleeps that hide it.",
 ["src/lock_pool.cpp",D+"wait_ops_emulated.hpp",D+"wait_ops_generic.hpp",D+"futex.hpp"],
 [("contended bit and wake in unlock","src/lock_pool.cpp"),("condition counter and requeue","src/lock_pool.cpp")])

p("C10","Waiter bookkeeping of the lock pool stays exact over every history",
 "Over every sequence of threads registering to wait on, and leaving, distinct addresses that share one lock, each address with at least one registered waiter has exactly one wait record, different addresses never share one, a record is reused only when its last waiter has left, and a notification reaches exactly the record of its own address. If memory for a record cannot be allocated, the wait still completes correctly by polling.",
 ["histories","fault_sequences"],"all bounded sequences of register/leave/notify over several addresses with allocation failures at any point, and arbitrary addresses",
 "Tests never have more than a few waiters, never force several addresses onto one lock, and never fail an allocation.",
 ["src/lock_pool.cpp",D+"lock_pool.hpp"],
 [("wait_state_list","src/lock_pool.cpp")])

p("C11","All address-search implementations agree",
 "Looking an address up in the table of waited-on addresses gives the index of an entry equal to it if there is one, and otherwise an index not below the table size, for every table content and size, with every instruction-set variant the processor dispatch can select; the variant selected is always one the processor supports.",
 ["inputs","configurations"],"all table contents and searched addresses for sizes up to a bound past every vector block boundary; all processor feature words",
 "The vector paths start at ten or twelve simultaneous waiters on one lock, which no test reaches.",
 ["src/lock_pool.cpp","src/find_address_sse2.cpp","src/find_address_sse41.cpp","src/bit_operation_tools.hpp","src/x86_vector_tools.hpp","src/cpuid.hpp"],
 [("vectorised searches","src/find_address_sse2.cpp, src/find_address_sse41.cpp"),("CPU dispatch","src/lock_pool.cpp")])

p("C12","Release and acquire operations order the surrounding memory accesses",
 "If one thread writes data and then performs a release (or stronger) operation on an atomic, and another thread's acquire (or stronger) operation reads the value so written (directly or through a chain of read-modify-writes or a third thread), the second thread's later reads see that data and never older values, and its later writes cannot be seen by the first thread's earlier reads. This holds for every operation that accepts such an order, with every type, width and object kind, including non-lock-free ones, and neither the compiler nor the processor may break it.",
 ["schedules","programs"],"all executions of the litmus programs (message passing, load buffering, release sequences, write-to-read causality) for every operation and order pair, under the compiler's and x86-TSO reordering rules",
 "x86 hardware hides missing barriers and compilers rarely exploit a missing compiler barrier in a test loop, so no run can show the absence of a forbidden outcome.",
 [D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_atomic.hpp",D+"core_ops_gcc_sync.hpp",D+"extra_ops_gcc_x86.hpp",D+"gcc_atomic_memory_order_utils.hpp",D+"core_operations_emulated.hpp","src/lock_pool.cpp"],
 [("fence_before/fence_after and memory clobbers",D+"core_arch_ops_gcc_x86.hpp"),("order conversion",D+"gcc_atomic_memory_order_utils.hpp")])

p("C13","Sequentially consistent operations and fences form a single total order",
 "Sequentially consistent operations on any atomics, and sequentially consistent fences between other accesses, admit no execution in which two threads each miss the other's earlier write (store buffering) or two readers disagree on the order of two writes; acquire and release fences order surrounding relaxed accesses like the corresponding operations, and a signal fence stops compiler reordering.",
 ["schedules","programs"],"all executions of store-buffering, IRIW and fence litmus programs for every operation pair and width under compiler and x86-TSO rules",
 "The ordering test samples millions of runs of one 32-bit shape; other operations, widths and the fence functions are not covered, and absence of an outcome in runs proves nothing.",
 [D+"fence_ops_gcc_atomic.hpp",D+"fence_arch_ops_gcc_x86.hpp",D+"core_arch_ops_gcc_x86.hpp",D+"core_ops_gcc_atomic.hpp","include/boost/atomic/fences.hpp"],
 [("seq_cst store as exchange / locked instruction",D+"core_arch_ops_gcc_x86.hpp"),("locked dummy operation as full fence",D+"fence_arch_ops_gcc_x86.hpp")])

p("C14","wait() returns only on a changed value and blocks only while it is unchanged",
 "An untimed wait returns only after the object was observed with a value different from the given one, returns exactly that observed value. No wait, timed or not, blocks or keeps blocking on a stale decision: the comparison with the old value and going to sleep are indivisible with respect to a notification that follows a change. Spurious wake-ups, interrupted or failing system calls never make it return early.",
 ["schedules","inputs","fault_sequences"],"all object values and old values, all results of the underlying system calls, all value changes between any two steps, every type and wait back end",
 "Tests cover a few values with timing-dependent threads and never see spurious wake-ups or interrupted system calls.",
 [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"futex.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
 [("futex wait loop",D+"wait_ops_futex.hpp"),("re-check under the pool lock",D+"wait_ops_generic.hpp, "+D+"wait_ops_emulated.hpp")])

p("C15","notify_one wakes at least one and notify_all wakes every waiter on the object",
 "A notification addresses exactly the waiters of its own object: notify_one unblocks at least one thread, notify_all unblocks all threads, that were blocked waiting on that object when it was called, through the same mechanism the wait uses, and neither changes the object or any other object's waiters.",
 ["schedules","inputs"],"all numbers and states of waiters within the bound, all object addresses and types, each wait back end",
 "Tests notify at most three waiters of one object; wrong wake counts, wrong address or scope flags for other types or for notify_all beyond that pass.",
 [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"futex.hpp","src/lock_pool.cpp"],
 [("futex wake / broadcast",D+"futex.hpp"),("pool notify_one/notify_all","src/lock_pool.cpp")])

p("C16","Timed waits never time out early or oversleep, and report truthfully",
 "wait_for and wait_until report a timeout only if the object still held the old value at a check made at or after the deadline on the given clock, report no timeout whenever the returned value differs from the old one, and hand the operating system a well-formed deadline on the right clock that is never later than the requested one rounded up to its resolution. This holds for every clock, every duration and deadline (negative, zero, large, sub-nanosecond period) representable on that clock in nanoseconds, every current time, and every result of the system calls, including failures and unsupported calls; if the value changes the wait returns that value.",
 ["inputs","fault_sequences","schedules"],"all deadlines, durations and clock readings, all old and current values, all system call results and value changes in between",
 "Tests use a few hundred milliseconds on two clocks; rounding, overflow, negative times, clock identifiers and error paths are not sampled.",
 [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"chrono.hpp","src/lock_pool.cpp",D+"futex.hpp","include/boost/atomic/wait_result.hpp"],
 [("deadline conversion",D+"chrono.hpp"),("timeout loops",D+"wait_ops_futex.hpp"),("pool timed waits","src/lock_pool.cpp")])

p("C17","Inter-process atomics work across processes",
 "Operations, waits and notifications of inter-process atomics, references and flags never depend on state private to a process: no lock pool, no process-private wake-up queue, no dependence on the address at which the object is mapped; a notification by one process reaches a waiter in another. All their results are those of the ordinary types.",
 ["configurations","inputs","schedules"],"all operations of the inter-process types, all values, all addresses, each configuration",
 "The inter-process tests run in one process (threads or one mapping), where process-private queues and lock pools still work.",
 ["include/boost/atomic/ipc_atomic.hpp","include/boost/atomic/ipc_atomic_ref.hpp","include/boost/atomic/ipc_atomic_flag.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
 [("private flag selection",D+"wait_ops_futex.hpp"),("polling wait for non-native sizes",D+"wait_ops_generic.hpp")])

p("C18","Lock-freedom and native-wait claims match what the operations do",
 "If an atomic, reference or flag claims to be lock-free (statically or at run time, or by the feature macros), none of its loads, stores or modifications ever takes a lock, calls into the lock pool or allocates; if it claims not to be, its operations do use the pool. Likewise an object claiming native waiting and notifying never uses the lock pool for them, and the macros, static members and run-time queries agree.",
 ["configurations","inputs"],"every type size and kind, every operation, each configuration",
 "The lock-free test only compares the macros with the queries; whether an operation really avoids locks is not observed.",
 ["include/boost/atomic/capabilities.hpp",D+"caps_gcc_atomic.hpp",D+"caps_arch_gcc_x86.hpp",D+"wait_capabilities.hpp",D+"core_operations.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
 [("capability macros",D+"caps_arch_gcc_x86.hpp, "+D+"caps_gcc_atomic.hpp"),("is_always_lock_free",D+"atomic_impl.hpp")])

p("C19","atomic_flag behaves as an indivisible set/clear bit",
 "From any state, test_and_set sets the flag and returns its previous state in one indivisible step, clear clears it, test returns its state without changing it; a default-constructed or initialised flag is clear. Its waiting and notifying operations obey the same rules as those of the other atomics.",
 ["inputs","schedules"],"both states, all orders, arbitrary interference, both flag kinds, each configuration",
 "Tests exercise one thread with two calls; interference within test_and_set and wait error paths are not reached.",
 [D+"atomic_flag_impl.hpp","include/boost/atomic/atomic_flag.hpp","include/boost/atomic/ipc_atomic_flag.hpp"],
 [("test_and_set / clear",D+"core_ops_gcc_atomic.hpp, "+D+"core_arch_ops_gcc_x86.hpp")])

p("C20","Assembly implementations are honest with the compiler",
 "Whatever registers the compiler assigns within the declared constraints and whatever live values it keeps elsewhere, an operation gives the right result and does not disturb the caller's other registers or memory: every register it overwrites is declared, outputs written before all inputs are read are declared so, values it must preserve are restored, and any memory it accesses is declared.",
 ["programs","configurations","inputs"],"all register assignments permitted by the constraints, all values, every assembly statement reached by the operations",
 "A missing clobber or early-clobber mark breaks only code where the compiler happens to pick the unlucky register, which differs per call site, compiler and flags.",
 [D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"fence_arch_ops_gcc_x86.hpp","src/cpuid.hpp"],
 [("operand constraints and clobbers",D+"core_arch_ops_gcc_x86.hpp, "+D+"extra_ops_gcc_x86.hpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
