#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/docs.py` after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/bss-util/'
P, NA = [], {}
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, level=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), level))
S, I, HI, C, F = 'schedules', 'inputs', 'histories', 'configurations', 'fault_sequences'
SC_NOTE = 'Seeded search, not exhaustive. Sequentially consistent interleavings at every instrumented memory access, atomic operation and libc call of the real code (x86-TSO store buffering is not simulated); thread scheduler, heap and libc synchronisation are simulated.'

prop('C01', 'The multi-producer multi-consumer queue is an exactly-once FIFO',
 'A queue shared by any number of producer and consumer threads behaves as one atomic first-in-first-out queue: every pushed element is popped at most once, none is lost, invented or duplicated, elements come out in an order consistent with the order they were pushed, and a pop fails only if the queue was empty at some moment during that pop. The popped object is the live, intact element that was pushed, each element is destroyed exactly once, the reported length is exact when no operation is in progress, and the memory of popped elements is used again. A queue that is moved or assigned into another one while nobody uses it takes its elements along in their order.',
 [S, HI], 'every interleaving of pushes and pops by any number of threads, and every operation history',
 'The test starts a few real threads on a two-core schedule and only counts elements; races between the last element, the consumer lock and node reuse need particular preemptions that it never controls.',
 [H+'LocklessQueue.h', H+'BlockAllocMT.h'], [('consumer lock, producer lock and sentinel node', H+'LocklessQueue.h: MicroLockQueue'), ('shared node pool', H+'BlockAllocMT.h')], ['Push', 'Produce', 'Pop', 'Length', 'Peek'])
prop('C02', 'The lock-free queue is an exactly-once FIFO for one producer, one consumer',
 'With one producing and one consuming thread, every pushed element is popped exactly once, in push order, intact and alive, and a pop fails only if every element whose push had finished was already popped. When neither thread is inside an operation the reported length equals the number of elements inside, and destroying the queue destroys the remaining elements exactly once; the memory of popped elements is used again. Different queues do not affect each other, whichever threads use them, also with the default allocator. A queue that is moved while nobody uses it takes its elements along.',
 [S, HI], 'every interleaving of one producer with one consumer, every history of pushes and pops, including threads swapping roles at rest',
 'Tests run one timing; node recycling by the producer while the consumer advances depends on where each is preempted.',
 [H+'LocklessQueue.h'], [('divider/last pointers publish nodes and let the producer trim consumed ones', H+'LocklessQueue.h: LocklessQueue::_produce, Pop')], ['Push', 'Produce', 'Pop', 'Length', 'Clear'])
prop('C03', 'The lock-free block pool gives each block to one owner and loses none',
 'A fixed-size block obtained by one thread is not given to anyone else, does not overlap another live block, and keeps what its owner wrote, until it is returned; a thread may return a block another thread obtained. Returned blocks are reused: a pool never grows while a request could be served from the free blocks it holds, whatever the threads do concurrently. Destroying the pool releases all of its memory.',
 [S, HI], 'every interleaving of allocations, frees and pool growth by any number of threads',
 'The ABA problem and the race between growth and concurrent frees require a thread to stall between two instructions; tests cannot place that stall.',
 [H+'BlockAllocMT.h', H+'lockless.h'], [('tagged-pointer freelist with 16-byte compare and swap', H+'BlockAllocMT.h: LocklessBlockPolicy'), ('only one thread grows the pool', H+'BlockAllocMT.h: _allocChunk caller')], ['Alloc', 'Dealloc'])
prop('C04', 'The lock-free ring allocator gives out exclusive blocks and reclaims buckets',
 'Blocks obtained concurrently from the ring allocator are at least as large as requested, never overlap another live block and keep their contents until freed, by whichever thread frees them. A bucket of memory is recycled or released only when no block in it is live, every allocation and free completes, and steady use in which live data stays bounded does not grow memory without bound. Destroying the allocator releases all of its memory.',
 [S, HI], 'every interleaving of allocations and frees of any sizes by any number of threads, with bucket exhaustion at any point',
 'Overlap and premature recycling happen only when several threads race at the end of a bucket; tests allocate from few threads and never steer that race.',
 [H+'RingAlloc.h'], [('reservation by an atomic counter in the current bucket, plus a per-bucket reference count', H+'RingAlloc.h: RingAllocVoid::Alloc, Dealloc, _checkRecycle'),('generation-tagged freelist of buckets', H+'RingAlloc.h')], ['Alloc', 'Dealloc', 'Clear'])
prop('C05', 'The bump allocator gives out disjoint regions under concurrency',
 'Regions obtained concurrently from the bump allocator never overlap, are at least as large and as aligned as configured, and keep their contents until the allocator is cleared or destroyed; freeing a single region leaves all memory valid. Clearing between phases makes the memory available again without invalidating later allocations, and destruction releases everything.',
 [S, HI, C], 'every interleaving of allocations by any number of threads, any sizes, alignment, initial size, and clears at rest',
 'Overlap needs one thread to be stalled between reserving and growing; the test only sums up allocations from threads it does not steer.',
 [H+'GreedyAlloc.h', H+'RWLock.h'], [('read lock for bumping, upgrade for growth', H+'GreedyAlloc.h: Alloc')], ['Alloc', 'Dealloc', 'Clear'])
prop('C06', 'The size-class cache allocator serves disjoint, reusable blocks concurrently',
 'Blocks obtained concurrently from the size-class cache allocator never overlap another live block, fit the requested size and keep their contents until freed with the same size. A freed block is available again for later requests of that size, also when several threads request a size for the first time together. Destroying the allocator releases all of its memory.',
 [S, HI], 'every interleaving of allocations and frees of few or many sizes by any number of threads',
 'The race between two threads introducing the same size class depends on preemption inside an upgrade of a lock.',
 [H+'CacheAlloc.h', H+'RWLock.h', H+'BlockAllocMT.h'], [('read lock for lookup, upgrade for insertion, per-size lock-free pool', H+'CacheAlloc.h: Alloc, Dealloc')], ['Alloc', 'Dealloc'])
prop('C07', 'The reader-writer lock never lets a writer share the lock',
 'While a thread holds the write side, obtained by locking, by a successful attempt or by upgrading, no other thread holds either side; data written under the write side is seen completely by every later reader. Readers may share the lock, and releasing or downgrading one hold never ends the hold of another thread.',
 [S, HI], 'every interleaving of lock, unlock, read lock, attempts, upgrade and downgrade by any number of threads',
 'Tests use real threads and counters; violations need two threads inside the few instructions between announcing and checking.',
 [H+'RWLock.h'], [('reader count and writer flag in one word, compare-and-swap transitions', H+'RWLock.h: RWLock')], ['Lock', 'RLock', 'AttemptLock', 'AttemptStrictLock', 'AttemptRLock', 'Upgrade', 'AttemptUpgrade', 'Downgrade', 'Unlock', 'RUnlock'])
prop('C08', 'Reader-writer lock requests are granted and attempts report the truth',
 'Every blocking request for the reader-writer lock is eventually granted once the conflicting holders release it and no attempt blocks. A lock attempt made while nobody else holds or requests the lock succeeds, a refused attempt leaves the lock exactly as it was, and once everybody has released, the lock is free for a writer.',
 [S, HI], 'every interleaving of any mix of lock operations that a correct program issues, under a scheduler that is eventually fair',
 'A lost release or a stuck flag appears only after a rare interleaving; a test that hangs once in a million runs is indistinguishable from a slow one.',
 [H+'RWLock.h'], [('spin until the conflicting bits clear; back out on refusal', H+'RWLock.h: RWLock')], ['Lock', 'RLock', 'AttemptLock', 'AttemptStrictLock', 'AttemptRLock', 'Upgrade', 'AttemptUpgrade', 'Downgrade'])
prop('C09', 'The thread pool runs each task exactly as often as asked, before Wait returns',
 'Every task submitted to a thread pool with at least one worker is run exactly as many times as requested, with the argument or bound parameters it was submitted with, whoever submits it, including tasks submitted from tasks, and whether or not anybody waits for it. Waiting on the pool returns only after all tasks submitted before it have finished running, and adding worker threads never loses or repeats a task. Bound parameters are alive during the call and destroyed exactly once, before a wait that covers their task returns, and the memory they were kept in is used again.',
 [S, HI, F], 'every interleaving of submitters, workers and waiters, any number of workers, interrupted waits',
 'Tests submit from one thread and compare counters; lost wakeups and repeated or dropped tasks depend on when a worker goes to sleep.',
 [H+'ThreadPool.h', H+'LocklessQueue.h', H+'RingAlloc.h', H+'Thread.h'], [('task queue, in-progress counter and semaphore', H+'ThreadPool.h: AddTask, Wait, _worker')], ['AddTask', 'AddFunc', 'Wait', 'AddThreads'])
prop('C10', 'Waiting on or destroying a thread pool always ends, with no thread left',
 'Waiting on a thread pool with at least one worker comes to an end once its tasks can finish, and destroying it at any moment - idle, busy or with tasks still queued - comes to an end too, after which none of its threads exists and no task starts. Its threads never touch freed memory.',
 [S, HI, F], 'every interleaving of destruction and waiting with workers going to sleep, waking and running tasks; interrupted waits',
 'A shutdown that hangs or touches freed memory needs a worker to be preempted at one instruction; tests shut pools down at one timing.',
 [H+'ThreadPool.h', H+'Thread.h'], [('negative run flag, one wakeup per worker, exit count', H+'ThreadPool.h: ~ThreadPool, _worker')], ['~ThreadPool', 'Wait'])
prop('C11', 'The atomic primitives are indivisible for every operand size',
 'The atomic compare-and-swap, exchange, add and bit set/reset primitives act on exactly the bytes of their operand, as one indivisible step with respect to each other from any number of threads, for every operand size they support. Compare-and-swap reports whether it wrote, and the variant that returns the previous value returns the value it compared with.',
 [S, I], 'every interleaving of primitive operations on the same or neighbouring operands, every operand value',
 'Tests call each primitive once from one thread with one value; a lost update or a write past the operand needs contention or a particular neighbouring value.',
 [H+'lockless.h'], [('lock-prefixed instructions and compiler atomics', H+'lockless.h')], ['asmcas', 'asmcasr', 'atomic_xchg', 'atomic_xadd', 'asmbts', 'asmbtr'])
prop('C12', 'A timed thread join honours its timeout and leaves the handle right',
 'Joining a thread with a timeout returns the thread\'s result if the thread ends within the timeout, and otherwise gives up no earlier than the timeout and not noticeably later, whatever the wall-clock time at the call. After a join that gave up the thread can still be joined, and after a successful join the handle no longer refers to a thread; a zero timeout only polls.',
 [S, I, F], 'every wall-clock phase, timeout, thread duration and interleaving of thread end with the join',
 'Whether the deadline is computed correctly depends on the current sub-second phase of the clock, which tests do not control.',
 [H+'Thread.h'], [('absolute deadline from the realtime clock passed to a timed join', H+'Thread.h: Thread::join')], ['join'])
prop('C13', 'The semaphore neither loses nor invents notifications',
 'A successful wait on the semaphore consumes exactly one notification and a wait succeeds whenever unconsumed notifications remain, however waits and notifications from any number of threads interleave. A wait that is interrupted reports failure and consumes nothing, and a batch notification is worth exactly its count. If the system refuses a notification, the notifier is told.',
 [S, F], 'every interleaving of waits and (batch) notifications by any number of threads, with interruptions of waits',
 'No test covers the semaphore directly, and interruption cannot be provoked on demand without controlling the system call.',
 [H+'Thread.h'], [('POSIX semaphore', H+'Thread.h: Semaphore')], ['Wait', 'Notify'])

exec(open(os.path.join(ROOT, 'tools', 'docs2.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'docs2.py')) else None

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _ in P: f.write(json.dumps(p) + '\n')
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
    technique='deterministic simulation with seeded fault injection: the real code runs on simulated threads, heap, clocks, files and libc; seeded search over schedules and faults, checked by a reference model', level='exploration', level_note=lv or SC_NOTE) for p, lv in P if p['id'] not in NA]
json.dump(dict(version=1, setup_cmd='python3 check.py --build-runtime', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='No hooks in /repo: the code is compiled unmodified with compiler instrumentation (-fsanitize=thread, -fsanitize-coverage) whose callbacks are implemented by the simulator in sim/, and libc calls are redirected at link time. See DESIGN.md.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks')
