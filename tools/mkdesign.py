import json,os,glob
head=r'''# Deterministic simulation of PTL with fault injection

PTL is a header-only library of binary-stable value and reference types. It has no clock, no network and no disk,
so there is no simulated time in seconds, no partition, no disk fault and no crash/restart with durable state here;
progress is counted in simulated calls, memory accesses and units of work. The nondeterminism its users do meet
enters through five seams the code already has:

| seam | who is behind it in production | what the simulator puts there |
|---|---|---|
| allocator (`malloc/calloc/free/aligned_alloc/operator new/delete`) | OS heap, one heap per module | simulated heap: ledger of blocks by routine and owner, seeded garbage in fresh memory, k-th failure, exhaustion from a point on, a machine limit of 16 MB per block, one heap per module |
| element / payload / iterator / callback types (template arguments) | user code | instrumented types with a registry of live objects whose k-th copy / construction / assignment / dereference / call throws; types with destructive self-move, braced-construction traps, padding, folded equality, reversed order |
| stream buffers | pipes, files, sockets | simulated sources and sinks: one-character refills, blocks, no put-back, end / error / exception at any character position |
| callers on other threads | application threads | real threads of which exactly one runs at a time; a seeded scheduler may switch at *every memory access* of the library |
| the other side of the binary boundary | separately built modules, older releases | shared objects built by g++ -O2, clang++ -O1 and g++ -O0 with assertions, and one built from the pinned release (`sim/frozen`), each with its own heap |

No hook in /repo is needed: every seam is a template argument, a link-time symbol (`--wrap`) or compiler
instrumentation (`-fsanitize=thread` call-outs answered by our own runtime, `sim/seam_thr.cpp`). Commits in /repo are
`fix:` commits only.

## One run

`sim/core.cpp` is the driver, `check.py` builds it from /repo's working tree (objects cached by the hash of every
header and option, so a change in /repo always rebuilds) and writes the evidence file.

* A **run** is generated from (seed, run number, property): a world, 7 configuration words, a garbage pattern, 1-46 steps
  (operation, arguments, fault kind, fault position) and, for threads, preemption points. Swarm style: every run picks its
  own weights of operations, enabled fault kinds and fault rate. Nothing else decides anything: same plan, same execution.
* Each step is one call into the real library with fault points armed (`sut()`); its outcome (returned, or which exception)
  is judged against the faults that really fired, and afterwards all objects are compared with a plain model.
* Violations have a class (value, atomicity, lifetime, memory-ledger, capacity-promise, must-not-fail, malformed, stream,
  dispatch, view, abi, foreign-heap, race, interference, work, crash, terminate, hang). Each property names the classes
  (and where needed the calls) that count for it (`sim/modes.cpp`); an anomaly of another class is counted in the evidence
  (`anomalies_outside_this_property`) and left to the property it belongs to.
* Worker processes execute the runs; a crash, `std::terminate`, AddressSanitizer report or hang (4 s CPU) of a worker is
  attributed to its current run and call.
* The lowest failing run is repeated twice alone, **minimised** (delta debugging over steps, preemptions, faults,
  configuration, arguments), and the result must fail identically - class, step and hash of the complete event log - in two
  children and in a fresh process before `VIOLATION` is printed (the replay gate). If a run fails only because of what
  earlier runs left behind in the process (a change that adds a static), the replay file names those runs (`before ...`) and
  they are executed first. If the log differs between repetitions because the changed code itself depends on addresses, the gate
  asks for class and step in six executions instead. `python3 check.py --replay FILE` repeats a replay file.
* Address randomisation is switched off where the sandbox permits it (re-exec with `ADDR_NO_RANDOMIZE`; not needed for soundness).
* **Determinism self-test** in every quiet check: the first 400 (thorough: 4000) runs are executed again in one fresh process in
  reverse order and the event-log hashes compared with those of the forked workers; a difference ends the check with an error, never with a verdict.

A clean batch is evidence about the explored runs, not a proof; level `exploration` for all.

Thorough tier: the same search for up to 700 s (10-20 million runs cap) instead of 12-40 s.

## The worlds

'''
P={}
P['C01']='''`vec:*` worlds (`sim/vec.hpp`): three vectors, 81 operations (all constructors, assignments, insertions with forward / random-access / single-pass / initializer-list / foreign-range sources, self-referencing arguments, growth, erasure, access, comparison, iteration), elements: ledgered throwing objects (self-move destructive or not), int, bytes, padded PODs, strings that own memory, large objects; histories up to some 30 000 elements (bytes: 300 000). Oracle: `std::vector<int>` of values per vector, return values, and after a failure every vector equal to its model before the call. Faults: k-th allocation, exhaustion, k-th element operation, k-th iterator access.'''
P['C02']='''Same worlds; oracle: registry of live objects by address and type (double construction, use of dead, destroyed twice, number alive = sum of sizes) and ledger of blocks (routine, size, exactly once, nothing left at the end).'''
P['C03']='''`vec` and `str` worlds with bursts of exhausted memory; oracle: while the result fits the reported capacity, the listed calls neither fail for memory nor move `data()` nor reduce `capacity()`; erase/pop/clear never relocate; reserve(n) gives >= n and changes nothing else.'''
P['C04']='''`str` world (`sim/w_str.cpp`): strings in both storage states, ~85 operations, all byte values including zero, against `std::string`; failures leave every string as it was.'''
P['C05']='''Same world; oracle after every call, failed ones included: terminator at `data()[size()]`, size <= capacity, c_str / data / view / iterators describe the same characters, ledger, AddressSanitizer for anything outside the owned storage (objects live in separate heap blocks).'''
P['C06']='''`vec` and `str` worlds with exhausted memory in most steps and with sizes around every limit (max_size, wrap-around of size_t, machine limit); oracle: bad_alloc or length_error reaches the caller, nothing is corrupted, and calls that need no memory succeed.'''
P['C07']='''`opt` worlds (`sim/opt.hpp`): optionals of throwing, owning and converting payloads, all constructors / assignments / emplace / reset / swap / comparison / access / optional_ref; oracle: `std::optional<int>` model, registry, ledger.'''
P['C08']='''`var` worlds (`sim/var.hpp`): variants of 2 to 20 alternatives with throwing, owning, trap-constructed and same-representation alternatives; oracle: (alternative, value) model, all other alternatives refused by get / get_if / visit / holds.'''
P['C09']='''`arr`, `tup` worlds (`sim/arr.hpp`, `w_tup.cpp`): arrays of 0, 1, .. elements, tuples of 1, 2, 4 and 10 members, built and copied from constants, variables and expiring constants; after a failure each element is old or new, none dead, constructors destroy what they built; otherwise element-wise result.'''
P['C10']='''`in` worlds (`sim/w_io.cpp`): bitsets of several sizes read from simulated sources; oracle: `std::bitset` extraction from an identical simulated stream (value, stream state, characters consumed, what follows).'''
P['C11']='''`out` world: strings, string references and bitsets written to simulated sinks (unbuffered, any block size, refusing or throwing at any position, manipulators); oracle: the exact prefix, error state, object unchanged, and what was delivered reads back equal.'''
P['C12']='''`mod:*` worlds (22 types): objects live in the host, every operation is executed by a module chosen by the seed; oracle: the module built from the pinned release and a model inspect the object after every step (values, sizes, flags, positions of members through use). `sim/frozen` is the pinned release (the base commit plus this work's fixes), so a change of layout or encoding shows as a disagreement.'''
P['C13']='''Same worlds, restricted to types that own memory; each module's heap is a separate ledger; oracle: every block is released by the module and the routine that obtained it, exactly once.'''
P['C14']='''`thr:own` world (`sim/thr.hpp`, `thr_glue.cpp`, `w_thr.cpp`, `seam_thr.cpp`): 2-3 tasks each use their own objects of all types (all accessors, streams, failing allocations). Every task runs alone first, then concurrently under the generated schedule; oracle: identical observations, and no conflicting unsynchronised accesses.'''
P['C15']='''`thr:shared` world: tasks read the same objects (access, iteration, comparison, hashing, copying, visiting, viewing, writing to own streams) or write different elements; same oracle plus bytes of the shared objects unchanged.'''
P['C16']='''`call:*` worlds (`sim/call.hpp`, `sim/w_call.cpp`, `sim/w_call_move.cpp`): function references to lambdas, functions, function objects with const/non-const/ref overloads over seven signatures (by value, const, reference result, handed-over arguments, rvalue and move-only arguments, noexcept); re-entrant, rebinding, throwing, state-changing targets; oracle: a log of which target was called on which object with which arguments, and whether a given-up argument arrived as a duplicate.'''
P['C17']='''`vis` world (`sim/w_vis.cpp`): visitation of variants and variant references with overload sets, by value category, nested, throwing, changing the visited value; oracle: a log of the overload invoked, its argument, its result.'''
P['C18']='''`view:*` worlds (`sim/w_view.cpp`, `w_view_bits.cpp`): references and derived views over owners that change between uses; oracle: index into the owner's model; refused accesses by the documented error; rebinding touches nothing.'''
P['C19']='''The `self_*` operations of the vec / str / opt / var worlds (and operations before them, to reach states); oracle: result of the call on a copy of the argument. Only anomalies in `self_*` calls count.'''
P['C20']='''`hand:*` worlds (`sim/hand.hpp`, 23 types): moves, swaps, self-moves and self-swaps with memory exhausted, sources used afterwards; moved-to has exactly the contents, no allocation, no exception.'''
P['C21']='''`work:*` worlds (`sim/w_work.cpp`): blocks requested, bytes requested and element operations of every call and of bursts of up to 700 calls, against bounds 2.5-10 times what the current code needs (measured with `SIM_WORK=1`), except the number of blocks per call, which is the promise in the code's own comments ("single allocation", "no need for allocation"). Failed calls are repeated and must succeed once the fault is gone (progress after faults stop).'''
P['C30']='''`cmp:*` worlds (`sim/cmp.hpp`, 30 types including bitsets, which have no order): pairs of objects reach contents by different routes (copies, moves, growth, shrinking, reuse, failed calls), differ nowhere or in one place; oracle: the six operators on the plain contents with the elements' own comparison (zeros of both signs, bytes that are no part of the value, equality coarser than identity, reversed order), both operand orders, mixed operands, equal hashes for equal contents.'''
P['C31']='''`bits<N>` worlds (`sim/bits.hpp`; N = 0 1 3 5 7 8 9 11 12 14 16 22 31 40 63 64 65 130 300 2100, every residue of 8): oracle is a `std::vector<bool>`; shifts by any count including 2^64-1, refused indices, failing sources and sinks, sentinel bytes around the object.'''
P['C22']='''`odd:*` worlds (`sim/odd.hpp`, `sim/w_odd_*.cpp`): the histories and models of C01/C02/C07/C08/C09/C18 over treacherous element types: one with a constructor for lists of its own kind (such a list holds a value of its own, so a copy that became a list is seen), one that can be made from anything (an object made from a container shows it), one whose `operator&` designates memory that never holds an object, one aligned to 64 bytes that checks its own address (the simulated heap aligns a block as much as the request guarantees and no more), optionals and vectors as elements. Oracle: the plain model, the live-object registry, the address. The three packed class templates misalign such payloads by design of the layout: recorded as known findings (world, class).'''
P['C23']='''`give:object` and `give:string` (`sim/give.hpp`): one world of external values, vector, optional, variant, tuple and array (of elements and of a box built from an element given up or lent, alone or with a second argument). Every storing operation is called with a value that is given up, lent, or lent as const, taken from outside or from inside any of the containers; every reading operation is applied to a container that is given up. Oracle: plain contents; no copy or creation of an element is counted during a call that is given its values (moves of the instrumented type cannot fail and are not counted), no memory is asked for unless a vector is full, the heap block of a long string arrives at its destination, the argument reads as moved-from afterwards (given), as before (lent), or as before (the call failed).'''
P['C24']='''`src:*` worlds (`sim/w_src.cpp`: string, vectors of int, instrumented object, string): every operation taking a range, over seven kinds of instrumented source (single pass, forward, bidirectional, random access; by reference or by value), with elements of the harness, of the container itself or of another one, lengths around the free capacity, failures of the source, elements and memory. Oracle: a tape per call (reads, advances, positions formed, order, anything after the failure) and the container's old elements compared at every read.'''
P['C33']='''`iter:*` worlds (`sim/w_iter.cpp`): iterators, const and reverse iterators walked over two containers that write, append within capacity, erase / insert behind, fail to grow, swap and move; oracle: (container, index) per iterator.'''
why={
'C01':'Tests run each call once on success; here each call meets every failure position after arbitrary histories.',
'C12':'Tests are one program built once.',
'C14':'A test run shows one schedule.',
}
threads=r'''
## The thread simulator (C14, C15)

The library is compiled with `-fsanitize=thread` into a module of its own and every call-out is answered by `sim/seam_thr.cpp`,
so each load, store, atomic, fence and block operation of the library is a scheduling point. Exactly one of the parked real
threads runs; the plan's preemptions say at which access to switch to whom. Besides uniformly placed preemptions there are
*hot* preemptions, counted only at points that touch an atomic, a lock or a static of the module - where interference is possible at all.
Function-local statics (`__cxa_guard_*`), `thread_local` destructors and mutex / rwlock / once calls of a (changed) library are simulated so that a blocked
task gives way instead of blocking the process. Statics of the module are restored before every phase; the heap of a run is quarantined, so an address
is never reused within it. A happens-before detector (vector clocks; edges from locks, guards, release/acquire atomics and fences) reports conflicting
accesses even where the results happen to agree. Isolated and concurrent executions must observe the same values. Limits: sequential consistency only,
no condition variables, accesses inside uninstrumented libstdc++ are seen only through the wrapped memory/string functions, 2-3 tasks.

'''
false=r'''
## What was checked and withdrawn, or limited

False alarms met while building, and what was done:
* C10: libstdc++'s own `uninitialized_copy` leaks one element when an iterator's increment throws; the simulated forward iterators throw on dereference only.
* C11: a field width combined with `<<` of a bitset is applied by the standard's operators to the first character only; excluded (no promise is documented).
* C12: hash values are not part of the binary contract (two releases may hash differently; equality of hashes for equal contents within a build is C30). An element model could not tell an empty `vector<int>` from `{0}`; the model was corrected.
* C15: the bits of one bitset share bytes; the property says so.
* C18/C30: two harness mistakes (a character buffer without terminator handed to a C-string constructor; reliance on evaluation order of arguments) were corrected in the harness.
* C19/C20: a mistake in a call that only prepares the state belongs to C01/C04/...; these two count anomalies in `self_*` / move / swap / use-after calls only.
* C30: padding bytes were at first real padding, whose contents the simulator did not decide; it is now a member that is no part of the value. World names with blanks were cut off in replay files, which made true violations fail the replay gate; fixed.

Design decisions of the library that are not judged:
strings grow by what is needed in multiples of 24 characters, not geometrically; `assign` may allocate although the result would fit (it keeps the old contents until it has succeeded); `tuple<T>` with one member cannot be copied from a non-const lvalue (does not compile);
headers rely on the includer for some standard headers; move constructors, swaps and destructors of elements must not throw (static_asserted).

Not applicable: C32 (sizes, packing and constraints are compile-time facts; there is no execution to simulate. Their run-time consequence between builds is C12.)

'''
muts=r'''
## How the checks were tested

Three campaigns besides the planted bugs below; all in scratch copies.

*Mutation* (about 400 hand-written and mechanical changes of the headers): killed/survived - vector 89/14, string 55/8, optional 38/7, variant 24/2, array 18/6,
array_ref 17/7, string_ref 15/5, tuple 10/4, bitset 10/0, variant_ref 9/2, function_ref 1/3, optional_ref 1/1. The survivors were read one by one: equivalent
changes, changes only the compiler can see (noexcept, constexpr, overload constraints), or gaps that were then closed (const ranges of array_ref, last element access,
value_or, view comparisons, zero values, rvalue bindings). Later lists of subtle changes (static buffers, cached hashes, comparison shortcuts, byte-wise shifts,
growth policies, address-dependent hashes, state kept across calls) are caught except for changes that turned out to be equivalent.

*Refactoring* (45 behaviour-preserving edits applied together and in parts: helpers extracted, loops rewritten, statements reordered, other allocation forms with the same pairing,
comparison operators expressed through one another): every check stays quiet.

*Defective base*: with the headers of the commit before the fixes (`PTL_REPO=/path/to/base python3 check.py C..`) the checks report the defects listed in KNOWN_FINDINGS.txt.

*Coverage*: instantiating every member in `sim/mod.cpp` and the worlds leaves no uncovered library function except compile-time-only ones.

## Genuine defects found

See KNOWN_FINDINGS.txt: %d repaired by `fix:` commits. Left open: `#pragma pack(1)` gives optional, variant and tuple an alignment of one byte, so a payload that needs an aligned address
may be misaligned (a `vector<optional<T>>` with `alignas(16) T` crashes at -O2). The layout is the binary contract of the library (C12), so this cannot be repaired without breaking it; C22 lists it as known, per world and class of violation.

## Planted bugs (seeded/) and the checks that catch them

| planted change | needs | caught by |
|---|---|---|
%s
'''
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); n=f.split('/')[-2]
    rows.append('| %s | %s | %s |'%(n,d['needs'].replace('|','/'),d['property']+(', '+', '.join(d['also']) if d.get('also') else '')))
nfix=sum(1 for l in open('/verif/KNOWN_FINDINGS.txt') if l.startswith('fixed:'))
out=head
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d['id']
    if i in P: out+='**%s %s.** %s *Why not tests:* %s\n\n'%(i,d['title'],P[i],d['why_tests_cant'])
out+=threads+false+muts%(nfix,'\n'.join(rows))
out+=r'''
## Cost

Quick: 10-35 s build when a header changed (8 cores), 12-25 s search, 0.2-2 million runs per check (50-500 million runs per hour); thorough: up to 700 s search each.
Bounds of one run: 1-46 calls, 2-3 objects, up to 30 000 elements (C01) or 700 calls per burst (C21), 2-3 tasks.
'''
open('/verif/DESIGN.md','w').write(out)
