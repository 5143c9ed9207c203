import json,glob,os
V='/verif'
head = r'''# Design: deterministic simulation of 20centaurifux/datatypes

The library is a set of C containers (hash table, red-black tree, associative array, lists, stack,
queue, memory pool, buffered stream) plus one concurrent component (the asynchronous queue).
Everything it is not alone in deciding - thread schedule, clock, pthread results, allocator results
and addresses, `read()` results, the order in which its clients call it, and the callbacks it makes
into its clients - is put under a seeded simulator. `properties.jsonl` lists 34 properties; 32 are
decided by the simulator, 2 (H01, H02) are not applicable (pure functions).

## 1. The simulator

**One process, coroutines.** Every simulated thread is a coroutine with its own stack inside one
process; the simulator switches between them. One seed is one execution: `bin/check selftest [N]`
runs the first N runs of every property three times (different processes, environment sizes, strides)
and once more from the recorded choices, and compares the event-log hashes (last: 9000 runs, 0
differences). Memory addresses come from a fixed-address arena, coroutine stacks from fixed
addresses, and freed/unused memory is filled from the seed, so even reads of uninitialised memory
repeat.

**Seams, no hooks in /repo.** `bin/check build` compiles /repo's current `*.c` twice, joins each
set with `ld -r`, and renames its *undefined* symbols with `objcopy` (sim/redefs.common,
sim/redefs.fine): malloc family, pthread, clock, sleep, read, exit/abort/err, stdio diagnostics,
rand, mem*/str* functions go to `simx_*` in sim/core.cpp. /repo has no hooks and no guards; the
library code that runs is the code that ships. Functions without an entry are linked as they are
(`undefined` in the build directory lists them).

**Two flavours.**
* *fine*: `-fsanitize=thread` is used only as an instrumentation pass (the callbacks are ours): every
  load, store and libc memory function of the library is a potential preemption point, is checked
  against shadow memory (heap blocks live/freed/never allocated, live stack, globals) and goes through
  a vector-clock happens-before race detector. `-fsanitize-coverage` counts basic blocks reached.
* *plain*: shipped flags, no instrumentation; preemption at pthread calls, allocator calls and
  callbacks; redzones and poisoned free memory are checked at free and at the end. Faster, and it runs
  the unaltered machine code, so a finding cannot be an artefact of the instrumentation. It is also the
  flavour of the *huge runs* (17 000 to 268 000 elements in maps, lists, queues and asynchronous queues,
  buffers to 1 MB, pool items to 100 KB, pool blocks and fixed tables of more than 65 536 entries).

**Scheduling.** Per run one of: random walk with a drawn preemption rate per kind of point, PCT
(random priorities with d change points), strictly serial. Preemption gaps are drawn geometrically, so a
run with 10^5 memory accesses still has few choices. All choices go through `choose()`; non-default
choices are recorded as (kind, task, index, value): that list *is* the schedule and fault trace.

**Time.** A virtual clock per run, advanced by the scheduler when everybody is blocked, by tick faults
and stalls; `gettimeofday`, `clock_gettime`, `pthread_cond_timedwait`, sleeps use it. Realtime can jump
in either direction and starts, in part of the runs, next to a date at which small integers stop counting (2^31 s,
2^32 s, far beyond, 1970).

**Faults injected** (counted per kind in the evidence):

| kind | what happens |
|---|---|
| preemption | task switch inside a library call, up to every single memory access |
| spurious_wakeup | `pthread_cond_wait/timedwait` returns without a signal |
| signal_target | which waiter a signal wakes; `signal_swallowed_by_timeout`: the signalled waiter reports ETIMEDOUT |
| stall / late_timer | a thread is suspended for up to hours of simulated time; timers fire late |
| clock_tick, clock_jump | time passes inside a call; realtime jumps forwards or backwards |
| allocation_failure | malloc/calloc/realloc return NULL: the n-th, random, or from then on persistently |
| realloc_moved / kept | realloc moves or grows in place; address_reuse: freed memory handed out at once or late |
| read_short, read_error, read_eintr, read_eagain, eof, read_blocks | descriptor behaviour, any errno |
| pthread_init/lock/wait/signal errors | init, lock, wait, signal/broadcast return errors (several errno values, once or persistently) |
| iterator_abandoned, consumer choices | clients stop half way: iterators abandoned, freed, reused |

There is no crash/restart and no network or disk fault because the library keeps no durable state and
has no peers: the only I/O it does is `read()` on a descriptor.

**Worlds.**
* *Queue world* (sim/qworld.cpp): 2-7 threads, 1-2 asynchronous queues (stack or heap allocated, four
  pool flavours, with and without free function), random mixes of push, push(NULL), pop, pop_timeout,
  count, clear, sleep. A few runs of the plain flavour have a *crowd* of 120 to 600 consumers of one queue.
* *Container world* (sim/cworld.cpp, sim/cgen.inc): 1-4 client tasks around 1-4 objects of all other
  kinds, shared under simulated reader/writer locks or owned by one task; every call is compared with an
  executable reference model (map, sequence, byte string, set of live items). Callbacks (compare, equal,
  hash, free) are scheduling points, so calls of different clients on different objects interleave inside
  one another, and every callback argument is checked for being alive.
* *Differential world*: the same scripts run alone one after the other, then all at once; results are
  compared and races reported (X03: concurrent readers of a quiescent object; X04: separate objects). X06
  uses it with one client: the script runs alone, then again with callbacks that make calls on other objects
  (up to three calls deep, siblings on one pool included), so only what the nesting changes is X06's.

* *Script shapes*: besides random mixes, objects are filled and emptied in cycles, cleared and created again
  at many sizes ("stairs"), probed with a different operation at every size a bulk operation passes through
  ("pokes"), iterated while other calls use the object, compared/hashed by callbacks that call into other objects, and
  given the stored key or datum itself as an argument (aliasing).

**Checks at every step**: shadow memory, races, held mutexes on return, blocked-state invariants whenever
the system is idle, models after each call. **Checks on the history**: linearizability (Wing & Gong with
memoisation, up to 60 operations per queue; necessary conditions beyond), exactly-once accounting, frees,
leaks, bounds, timing.

**Properties and classes.** Every violation has a class (sim/core.h `Cls`); a property enables the classes
that belong to its statement (sim/main.cpp `props[]`). Crashes (wild accesses caught by the shadow memory
or SIGSEGV) and hangs (step budget) count for every property of the container world they occur in: a call
that does not return has no result to be right. A library that ends the process although nothing it asked
for was refused has crashed; after an injected refusal that is the documented way out.

**Replay and minimisation.** A violation is re-run from its recorded choices, minimised (delta debugging
over tasks, operations, arguments, choices, configuration), written to `replays/*.replay` (seed, workload,
choices, readable trace), and re-executed in a fresh process; only if that gives the same class is it
reported. `bin/check replay FILE` repeats it.

**Cost.** A quick check takes 10-60 s on 8 cores (32 checks: about 16 minutes in sequence). Evidence has
runs/seeds per hour (10^7 to 4*10^8), simulated time, faults by kind, distinct event-log hashes,
switches inside calls, rare conditions hit and basic blocks reached. `VERIF_TIER=thorough`
multiplies the runs by 40 (cap 25 minutes per property). `VERIF_SEED` selects other runs.

## 2. Properties

Why tests cannot settle them is the same each time: the tests run one thread with friendly timing, a
handful of histories of at most a few dozen elements, malloc that succeeds and read() that succeeds.

| property | what is simulated | oracle | bounds |
|---|---|---|---|
| Q01 exactly once | queue world, all faults but pthread errors | every pop/free is looked up in the set of pushed items; final count and drained content against pushes - pops - cleared | 2-7 threads, up to ~30 ops each |
| Q02 linearizable | queue world, short histories | Wing & Gong search for a FIFO order explaining all results (a failed timed pop needs an instant with the queue empty) | 60 ops decided, longer: necessary conditions |
| Q03 no lost wake-up | blocking consumers, spurious wake-ups, signal choice, swallowed signals | whenever no task can run: no consumer asleep while items are there; after faults stop each push releases one consumer; nobody blocked on the mutex | bounded progress: one push, one consumer |
| Q04 blocking pop | same, with more blocking pops | return value of pop | |
| Q05 timeout | virtual clock, phases around second boundaries, 0 ms to 2^32-1 ms, stalls, late timers | elapsed virtual time >= timeout - 2 us; in strict-time runs <= timeout + 1 ms; no failure if an item was there before the deadline without a rival; no sleep with an item there | clock jumps excluded from the timing oracle |
| Q06 race freedom | every memory access a preemption point | vector clocks over library and payload memory, pools that write shared state | fine flavour |
| Q07 ownership | clears and destruction among pushes and pops | state of each item (in flight, popped, freed), calls that may free | |
| Q08 pthread errors | init/lock/wait/signal failures, single and persistent | call ends the process or a pop reports failure; else all queue oracles apply after the fault | judged only after a fault fired |
| B01-B04 buffer | writers, closers and readers on simulated descriptors; short/failed/blocking reads; clears | byte string model; exact lines; limit and invalid state; destination contents, NUL, redzones; read() call and byte count per fill | buffers 1 B - 16 MB |
| P01 overlap | pools of item size 2-257, block length 2-1000, several clients; huge runs: items to 100 001 bytes, blocks to 70 000 | interval map of live items, patterns in every item verified, containment in library memory, alignment of items whose size is a multiple of 2, 4, 8 | |
| P02 reuse | alloc/free churn | library memory may not grow while returned items exist; memory <= c * peak; destroy frees all | |
| P03 provenance | containers sharing library, custom and wrapped pools | each node state in the custom pool; live nodes = elements; every node exactly once | |
| M01-M03 maps | set/remove/lookup/clear/pair update/recreate/bulk/churn histories | std::map model, content after each call, full comparison by iteration | 64 hot keys, bulk to 6100, huge to 268000 |
| M04 iterators | several interleaved iterators, abandoned, reused on other and grown trees | visits = model, each once, then end | |
| M05 map ownership | free functions on keys/values | multiset of frees of each call = expected | |
| M06 cost | counts compare calls | trees/arrays: 2*log2(n+1)+2 per lookup, twice that per set or remove; growing hash table: mean over 256 operations <= 4, with the harness's hash and with the supplied ones on numbered names and consecutive integers | |
| L01-L04 sequences | list, slist, stack, queue histories | vector model, forward and backward walk after calls | |
| L05 list ownership | free functions, NULL data, shared (counted) data | multiset of frees of each call | |
| X01 out of memory | allocation failures (n-th, random, persistent) over all worlds | process ends in a controlled way, or all other oracles hold afterwards | judged only after a failure fired |
| X02 memory | all objects | shadow memory; bytes held after each destroy; mutexes and condition variables not destroyed; bytes held <= c * peak | |
| X03/X04 threads | differential world | race detector, results equal to serial ones | fine flavour |
| X05 steps | container world, long lists, piled-up buffers, deep trees | basic blocks executed plus bytes moved / 16, per call (callbacks excluded), against a constant, c * log n, c * n, or an amortised total; constants 4 to 10 times what the current code needs (`STEP_REPORT=1 sim_fine hashes X05 ...` prints the ratios) | fine flavour, lists to ~1500, maps to 6100, buffers to ~500 KB |
| X06 nested use | differential world, one client, callbacks that use other containers | all models, for the outer and the nested calls, frees of each call separately | depth 3, 400 nested calls per run |

### Not applicable
H01, H02: hash and comparison functions are pure functions of their arguments - no schedule, clock, fault,
allocation or history. Strings and pointers go through them in M01-M03 and L03 (the containers are given
the supplied functions in half of the runs), so a break is noticed there, but that does not decide them.

### Deliberate tolerances (what is not claimed)
* `list_find` from an offset: any matching element at or behind it for the doubly-linked list (it searches
  from both ends); the first one for `SList`.
* Order among equal elements of a sorted list; iteration order of tree and hash table (the associative array: ascending).
* `*_remove_by_data` with a pointer into the data it frees is not exercised, nor setting the very value pointer an entry already holds, nor a callback that uses the container it is called from.
* `buffer_to_string` of an empty buffer may be NULL or "". `buffer_fill_from_fd` on an invalid buffer
  returns <= 0 and must not read. EINTR may be retried or reported.
* Map lookups of one container are not run concurrently in X03 (lookup is not declared const), existence
  checks are.
* A custom pool whose `alloc` returns NULL is not claimed (the interface has no failure contract).
* `pthread_cond_timedwait` may swallow a signal at its deadline; the property is that no item is lost by it.
* The destination length reported by a buffer may be any value up to the real size of the block.

## 3. Findings

Genuine defects found by the checks and repaired (KNOWN_FINDINGS `fixed:` lines, one commit each):
L03 `1903b45` sorted insertion into the middle of a doubly-linked list crashed or looped; M04 `ce582f7`
iterator over an empty tree left uninitialised; B04 `8ed39c1` `count` bytes on the stack in
`buffer_fill_from_fd`; Q05 `0ed4af0` timeout truncated to seconds, 0 ms blocks forever; Q04 `3b9ea8a` pop
returns false after a wake-up without an item. Reverting each is reported: L03 by L03 and L01; M04 by M04 and
X02; B04 by B04 and X02; Q04 by Q04 and Q05; Q05 by Q05.

Oddities that no caller can reach and that are therefore not findings: the table of primes drops from
554381470637 to 110876294129 (nobody has that many entries); `direct_hash` saturates for pointers above
32 bits (equal pointers still have equal hashes).

### False alarms met and corrected
* Memory allocated by an iterator was charged to the map: iterators now belong to nobody and are checked at the end of the run.
* Destinations enlarged by the buffer are handed over to the caller: retagged, so that freeing them is legitimate.
* realloc growing in place: new bytes are fresh cells for the race detector.
* The "returned items are reused first" check measured the peak at the wrong moment.
* Reads of stale memory made runs differ between processes: memory is now filled from the seed.
* One planted bug relied on signed overflow (`-fwrapv`): redefined; one consisted of a loop without effect that the compiler removes.
* X05 charged the move of a tree iterator's stack to the step that grew it: bytes moved do not count there.

## 4. Planted bugs

`seeded/<id>/` has a patch, a demonstration and what it needs to manifest. Each was confirmed in a scratch
copy (builds, 113 tests pass, demonstration fails with it and passes without). `tools/plant.py` builds and checks
them. All are reported by the check of their own property (quick tier, seed 1); those first missed led to the
strengthening in the last table.

| planted bug | property (= check that reports it) | manifests with |
|---|---|---|
'''
rows=''
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows+='| %s | %s | %s |\n'%(os.path.basename(d),m['property'],m['needs'].replace('|','/'))
tail = open('/verif/tools/design_tail.md').read() if os.path.exists('/verif/tools/design_tail.md') else ''
open(V+'/DESIGN.md','w').write(head+rows+tail)
