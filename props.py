# Per-property build and search configuration.
SRC_FLAGS = '-msse2 -mcx16 -DLIBICONV_PLUG -w -O0 -g1 -fno-pie -mno-red-zone -fsanitize=thread -fsanitize-coverage=trace-pc'
DBG = ('debug', ''); REL = ('ndebug', '-DNDEBUG')
BOTH = [DBG, REL]
PROPS = {
  'C01': dict(variants=BOTH, rule='Seeded workloads of 2-6 threads pushing and popping unique values on one shared queue.'),
  'C03': dict(variants=BOTH, rule='Seeded workloads of 2-5 threads allocating, freeing and exchanging blocks of one pool.'),
  'C02': dict(variants=BOTH, rule='Seeded workloads of one producer and one consumer thread (roles optionally swapped between phases).'),
  'C04': dict(variants=BOTH, rule='Seeded workloads of 2-4 threads allocating and freeing blocks of varying sizes (also across threads, with Clear between phases).'),
  'C05': dict(variants=BOTH, rule='Seeded workloads of 2-5 threads allocating regions of varying sizes and alignment, Clear between phases.'),
  'C06': dict(variants=BOTH, rule='Seeded workloads of 2-4 threads allocating and freeing blocks of few and many sizes.'),
  'C07': dict(variants=BOTH, rule='Seeded workloads of 2-5 threads mixing all lock operations around multi-word shared data.'),
  'C08': dict(variants=BOTH, rule='Seeded workloads of 1-5 threads mixing all lock operations; progress bound 1 million steps with a fair, fault-free second part.'),
  'C11': dict(variants=[DBG, ('opt', '-O1 -DNDEBUG')], rule='Seeded workloads of 2-4 threads applying primitives of one operand size to one cell.'),
  'C09': dict(variants=BOTH, rule='Seeded workloads: pool of 1-4 workers, 1-3 submitting threads, plain/multi-instance/function/nested tasks, Wait at arbitrary times.'),
  'C10': dict(variants=BOTH, rule='Seeded workloads: 1-3 pools in turn, destroyed idle, busy or with queued tasks; progress bound 1.2 million steps, fair and fault-free in its second part.'),
  'C12': dict(variants=BOTH, rule='Seeded workloads: one worker of random duration, sequences of timed/zero/unbounded joins at random wall-clock phases.'),
  'C13': dict(variants=BOTH, rule='Seeded workloads of 2-5 threads waiting and notifying, EINTR injected into waits.'),
  'C14': dict(variants=BOTH, repo=['bss-util/HighPrecisionTimer.cpp'], rule='Seeded histories of timer operations with scripted clocks: spans from 0 ns to 400 days, backward steps, wall-clock jumps.'),
  'C15': dict(variants=BOTH, repo=['bss-util/HighPrecisionTimer.cpp'], rule='Seeded histories of adding events (also from events), clock movements (forward, backward) and updates.'),
  'C16': dict(variants=BOTH, repo=['bss-util/INIParser.c', 'bss-util/INIentry.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIstorage.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded edit histories (sections and keys with duplicate and prefix-sharing names) with saves, reloads and copies; every disk operation may fail.'),
  'C17': dict(variants=BOTH, repo=['bss-util/INIParser.c', 'bss-util/INIentry.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIstorage.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded INI texts (sections, entries, comments, noise, CRLF, lines around the length limit) loaded repeatedly over a disk with open errors, read errors and short reads at seeded places.'),
  'C18': dict(variants=BOTH, repo=['bss-util/Logger.cpp', 'bss-util/bss_util.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories of attaching, clearing and redirecting streams and files, logging through every entry point, target and disk failures, clock and time zone settings.'),
  'C19': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories of reads, writes, seeks, pushbacks and flushes on the three stream buffers, with failing and short upstream and downstream.'),
  'C20': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded sequences of writes and reads of 0-64 bits, values, flushes and moves over separate or shared streams that fail, end early or deliver byte by byte.'),
  'C21': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded value trees and typed objects, written by the library or by an independent writer (random layout, escapes, member order, unknown members), read over chunked, cut or failing streams; failing sinks.'),
  'C22': dict(variants=BOTH, repo=['bss-util/XML.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded node trees and typed objects, written by the library or by an independent writer (random layout, comments, entities), read over chunked, cut, failing or damaged streams; failing sinks.'),
  'C23': dict(variants=BOTH, repo=[], rule='Seeded sets of keyframes, intervals and interpolated values, played by one or two players whose time is cut into random steps (zero, tiny, whole loops at once), with rewinds, skips, resets and restarts.'),
  'C24': dict(variants=BOTH, repo=['bss-util/profiler.cpp', 'bss-util/HighPrecisionTimer.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded nestings of up to 400 profiled zones under a scripted clock (nothing to hours passing, also no time at all), reports at any moment.'),
  'C25': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories on random queues, shuffles, ranges, engines, alias tables, samplings and subdivisions of one to three interleaved users; the random source injects extreme values, is stuck, or is the real engine with any seed.'),
  'C27': dict(variants=BOTH, rule='Seeded histories of 1-4 threads on node containers of their own (AVL map and set, red-black, AA tree, lists, hashes) over shared concurrent allocators, handed between threads.'),
  'C28': dict(variants=BOTH, rule='Seeded histories of 1-4 threads on array containers of their own (dynamic, fixed, circular, sorted, map, linked, compact, bit arrays, queue, stack, heap) over shared concurrent allocators, handed between threads.'),
  'C26': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded typed objects (scalars, strings, arrays, tuples, nested tables, dates), written by the library or by an independent writer (random layout, comments, string forms, tables inline or as sections), read over chunked, cut, failing or damaged streams; failing sinks.'),
  'C29': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories on 1-3 string tables (built, appended, joined, copied, moved, dumped, reloaded in pieces from cut or failing streams) and whole-file loads from a faulty disk, against a list of strings and the bytes that arrived.'),
  'C30': dict(variants=BOTH, repo=['bss-util/UBJSON.cpp', 'bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded typed objects, written by the library or by an independent writer (random number widths, counts, types, no-ops, order, unknown members), read typed and untyped over chunked, cut or failing streams; output decoded by an independent reader; failing sinks.'),
  'C31': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories of one to three interleaved threads on reference counts, owners and views, variants, delegates, deferred calls and singletons that are handed between the threads; copies throw where the seed says so.'),
  'C32': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories of one to three interleaved threads building, changing, searching, copying and moving graphs, disjoint sets and tries over shared or default allocators, handed between the threads.'),
  'C33': dict(variants=BOTH, repo=['bss-util/bss_util_c.c', 'bss-util/ConvertUTF.c'], rule='Seeded histories of one to three interleaved threads, each using one pool at a time (blocks taken, returned, reallocated; pools cleared, moved, assigned and handed over), with failing system allocations in builds without assertions.'),
}
