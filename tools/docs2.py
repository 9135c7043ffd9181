CLK_NOTE = 'Seeded search, not exhaustive. The real code runs in the simulator; the clocks are scripted by the seed. Assumes clock readings do not change inside one library call.'
IO_NOTE = 'Seeded search, not exhaustive. The real code and real stdio/iostream buffering run over a simulated disk or stream buffer that fails, truncates or shortens transfers where the seed says so.'
prop('C14', 'The timer measures exactly how far its clock moved and never runs backwards',
 'Each update of the high precision timer adds exactly the time its monotonic clock has advanced since the previous sample (divided by the time warp, if one is given), and the millisecond and nanosecond readings of delta and total always agree. If the clock steps back, the timer stands still until the clock has caught up; changes of the wall clock have no effect, and resetting or overriding affects only what it names.',
 [HI, F], 'every sequence of updates, warped updates, overrides and resets, and every movement of the clocks including backward steps, wall-clock jumps and very long spans',
 'Tests read the real clock of the machine, which never steps back or jumps while they run, and only compare with generous ranges.',
 ['bss-util/HighPrecisionTimer.cpp', H+'HighPrecisionTimer.h'], [('monotonic clock selection', H+'HighPrecisionTimer.h: BSS_POSIX_CLOCK'), ('clamping of backward readings, accumulation', 'bss-util/HighPrecisionTimer.cpp: Update, Override')], ['Update', 'Override', 'ResetTime', 'ResetDelta', 'GetDelta', 'GetDeltaNS', 'GetTime', 'GetTimeNS', 'OpenProfiler', 'CloseProfiler'], level=CLK_NOTE)
prop('C15', 'The scheduler fires each event exactly when due, never early, in due order',
 'An update of the scheduler fires every event whose time has come, earliest due time first, and none whose time has not come; an event that returns zero is removed and an event that returns a positive delay fires again that long after the current time. This holds when events add further events while firing, when updates come late, when the clock steps back and when no event is left, and the reported number of events is always the number still pending.',
 [HI, F], 'every history of adding events (from outside and from events), updates and clock movements',
 'The only test performs one update; a wrong heap entry or an event run from freed memory needs several events, rescheduling and re-entrance.',
 [H+'Scheduler.h', H+'BinaryHeap.h', 'bss-util/HighPrecisionTimer.cpp'], [('binary heap ordered by due time', H+'Scheduler.h: Add, Update'), ('percolation', H+'BinaryHeap.h')], ['Add', 'Update', 'Length'], level=CLK_NOTE)
prop('C16', 'Saved INI edits are what is stored and reloaded, whatever the disk does',
 'After any history of adding, changing and removing sections and entries (names may repeat or be prefixes of each other), the storage in memory shows exactly the edited content, and once a save went through, loading the file again shows the same. If the file cannot be opened or read, an edit reports failure and changes neither memory nor file; if a save fails or is cut short, the edit is kept and a later save stores it completely; a discarded edit leaves the file untouched. A copied, moved or assigned storage or section shows the content of its source.',
 [HI, F], 'every edit history over sections and entries with repeated names, and every failure of opening, reading, writing and closing the file, short transfers and a full disk',
 'Tests edit one well-formed file on a healthy disk; partial writes, unreadable files and duplicate-name histories are never exercised.',
 ['bss-util/INIstorage.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIParser.c', 'bss-util/INIentry.cpp'], [('text image edited in step with the hashed lists', 'bss-util/INIstorage.cpp: EditEntry, AddSection, RemoveSection'), ('save', 'bss-util/INIstorage.cpp: EndINIEdit'), ('lookup of sections and entries in the text', 'bss-util/INIParser.c: bssFindINISection, bssFindINIEntry')], ['EditEntry', 'EditAddEntry', 'AddSection', 'RemoveSection', 'EndINIEdit', 'DiscardINIEdit', 'INIstorage(path)'], level=IO_NOTE)
prop('C17', 'Loading an INI file gives exactly what its complete lines say',
 'Loading an INI file gives exactly the sections and entries its lines spell out, in order and with repeated names kept apart, an entry whose text is a number being that number, ignoring comments, blank lines and noise, however the bytes are delivered. A read error ends the load: every line read completely before it is there, nothing after it, and never a cut-off value; an unreadable file loads as empty. Loading always ends, closes the file it opened and leaves nothing behind, and a later load from a healthy disk is complete. A line beyond the length limit of 1023 bytes is cut but disturbs no other line.',
 [HI, F], 'every text of sections, entries, comments and noise, and every placement of short reads, read errors and open errors',
 'Tests load one file on a healthy disk in one read; a read error in the middle, or a transfer that ends within a line, never occurs.',
 ['bss-util/INIParser.c', 'bss-util/INIstorage.cpp', 'bss-util/INIsection.cpp'], [('line reader and classification', 'bss-util/INIParser.c: bssParseLine'), ('load loop', 'bss-util/INIstorage.cpp: _loadINI, _addSection')], ['INIstorage(path)', 'INIstorage(FILE*)', 'bssParseLine', 'GetSection', 'GetEntryPtr', 'GetNumSections', 'GetNumEntries'], level=IO_NOTE)
prop('C18', 'Every log target gets every message exactly once, whatever others do',
 'Every stream or file attached to a logger receives, in order and exactly once, every byte logged while it is attached, through whichever entry point or redirected stream it was written; a target that fails, cannot be opened or runs out of space does not affect the others, and a repaired target is served again. Headers show source, file name, line, level and the local date and time of the moment; messages at or above the maximum level appear nowhere. Clearing, moving or destroying the logger first delivers what is pending, closes its files and gives redirected streams back.',
 [HI, F], 'every history of attaching, clearing, redirecting, logging, level and format changes and moves, every failure of a target, every wall-clock time and time zone',
 'Tests log two lines to one healthy file in the zone and at the time of the machine.',
 ['bss-util/Logger.cpp', H+'Logger.h', H+'stream.h', 'bss-util/bss_util.cpp'], [('fan-out and buffering', H+'stream.h: StreamSplitter::sync'), ('headers', 'bss-util/Logger.cpp: _logHeader, _writeDateTime'), ('levels', 'bss-util/Logger.cpp: SetLevel'), ('release of targets', 'bss-util/Logger.cpp: ClearTargets, ~Logger, operator=')], ['AddTarget', 'ClearTargets', 'Assimilate', 'Log', 'PrintLog', 'LogFormat', 'SetLevel', 'SetMaxLevel', 'SetFormat', 'SetNullFormat', 'GetTimeZoneMinutes'], level=IO_NOTE)
prop('C19', 'Memory and filter stream buffers move each byte exactly once and in order',
 'A stream over an array delivers exactly the bytes of the array and behaves like a standard input stream for every mix of reads, pushbacks and seeks; seeks outside are refused. A stream over a growable array appends every byte written, in whatever portions, and after a flush the array holds every complete element, also when it had to grow in the middle of a write or while part of it was read; reading continues where it was. A filtering stream buffer delivers or passes on every byte in order however the transfers are cut, reports short counts only at the real end, and after a failure of the stream below what was passed on is a prefix.',
 [HI, F], 'every history of reads, writes, pushbacks, seeks and flushes, every element size and capacity, every chunking and every failure of the stream below',
 'Tests copy one small array through in fixed portions; growth in mid-write, single-character output, failing or short transfers are not exercised.',
 [H+'stream.h', H+'DynArray.h'], [('growth', H+'stream.h: StreamBufDynArray::_expand, xsputn'), ('read window', H+'stream.h: StreamBufArray::seekoff, xsgetn'), ('filter transfers', H+'stream.h: StreamBufFunction::xsgetn, xsputn')], ['StreamBufArray', 'StreamBufDynArray', 'StreamBufFunction'], level=IO_NOTE)
prop('C20', 'Bits written to a bit stream are stored and read back unchanged',
 'The bits written to a bit stream, in whatever widths, are stored packed and in order, and reading them back in the same or other widths gives the same bits and touches only the bytes asked for; a flush or the end of the stream writes an unfinished byte exactly once, padded with zeros. Reading and writing may share one stream; reading exactly all bits is not a failure. If the stream below fails or ends early this is visible in its state and everything stored before is a prefix of what was written. Serialised numbers and strings come back unchanged or report failure.',
 [HI, F], 'every sequence of widths and values, every offset, every split of the transfers, every point at which the stream below fails or ends',
 'The test writes and reads one sequence of widths on a healthy string stream with zeroed destinations.',
 [H+'BitStream.h'], [('bit packing', H+'BitStream.h: Write, Read, Flush'), ('serialisation', H+'BitStream.h: bssSerialize, bssDeserialize')], ['Write', 'Read', 'Flush', 'operator<<', 'operator>>', 'operator=', 'bssSerialize', 'bssDeserialize'], level=IO_NOTE)
prop('C21', 'JSON values and objects survive writing and reading over any stream',
 'A value tree or a serializable object written as JSON, compact or pretty-printed, reads back equal (floating-point numbers to the precision of the stream), and a JSON text from elsewhere gives what it says, with any layout, escapes, member order and members the object does not know; reading consumes exactly the document however its bytes are delivered. If the source ends or fails early, reading ends and everything complete before that point has its value; damaged text ends too. If the sink fails this is visible in the stream and what it accepted is a prefix of the document.',
 [HI, F], 'every value tree and object, every text layout, every chunking, every point at which a stream ends or fails',
 'Tests read one document from memory in one piece and write it once; cuts, failures, unknown members, escapes and odd layouts are not exercised.',
 [H+'JSON.h', H+'Serializer.h'], [('parser', H+'JSON.h: ParseJSONBase, ParseJSONObject, ParseArray, ParseNumber'), ('writer', H+'JSON.h: WriteJSONBase, WriteJSONObject, SerializeArray'), ('member dispatch', H+'Serializer.h: EvaluateType, FindParse')], ['WriteJSON', 'ParseJSON', 'JSONValue'], level=IO_NOTE)
prop('C22', 'XML documents and objects survive writing and reading over any stream',
 'A tree of XML nodes, after any history of adding, copying, assigning and removing nodes and attributes, holds exactly what was edited, each text that is a number (or true) being that number; it or a serializable object written as XML, pretty-printed or not, reads back with the same nodes in order, the same attributes, numbers and text (layout around the text of nodes with children aside), whatever characters values contain; a well-formed document from elsewhere gives what it says with any layout, comments, entities and prolog, however its bytes are delivered. If the source ends or fails early, reading ends and every node closed before that point is complete and nothing is invented; damaged text ends too. If the sink fails this is visible in the stream and what it accepted is a prefix of the document.',
 [HI, F], 'every node tree and object, every layout, every chunking, every point at which a stream ends or fails',
 'Tests read fixed documents from memory in one piece; cuts, failures and markup characters in attributes are not exercised.',
 ['bss-util/XML.cpp', H+'XML.h', H+'Str.h'], [('parser', 'bss-util/XML.cpp: _match, _parse, _parseInner, _parseAttribute, _parseEntity'), ('writer', 'bss-util/XML.cpp: _write, _writeString'), ('objects', H+'XML.h: XMLEngine')], ['XMLFile', 'XMLNode', 'XMLEngine'], level=IO_NOTE)
prop('C23', 'An animation plays every keyframe once per pass in order, however time is cut',
 'However the elapsed time is cut into Interpolate steps (zero, tiny, several loops at once), every keyframe whose time is reached is called exactly once per pass, never before its time, in time order; every interval is begun once when its time is reached and ended exactly once when its length has passed since then, in the order the intervals end, or on going back, looping or destruction; an interpolated value is the one for the current time. A step over the end of a looping animation finishes the pass, then starts from the beginning up to the position it wraps to. GetTime, the length and the return value tell the truth; an animation keeps its frames when copied or moved; players of one animation do not affect each other.',
 [HI, S], 'every set of keyframes, every way of cutting time into steps, every order of rewinds, skips and restarts, every interleaving of players',
 'The test plays three frames with half-second steps; it never looks at when an interval ends.',
 [H+'Animation.h', H+'PriorityQueue.h', H+'BinaryHeap.h', H+'ArraySort.h'], [('stepping and looping', H+'Animation.h: AniState::Interpolate, Reset, SetTime'), ('tracks', H+'Animation.h: AniStateDiscrete, AniStateInterval, AniStateSmooth'), ('frames and length', H+'Animation.h: AniData, AniDataInterval, Animation')], ['Animation', 'AniState', 'Interpolate'])
prop('C24', 'The profiler credits each call path with exactly the time that passed in it',
 'For every nesting of profiled zones, recursion and any number of zones included, each call path is kept apart from every other; its reported time is the average over its completed runs of what the clock moved between entry and exit, its own time is that minus the time of the zones inside, and the flat report combines all paths of a zone under its name. The tree, flat and heat reports list everything that ran exactly once, under the right name, path and unit, sorted where they say so, and can be written at any moment, also while zones are open or if no time has passed.',
 [HI, I], 'every nesting and order of zones, every movement of the clock, every number of zones',
 'The test profiles five zones and never looks at the output.',
 ['bss-util/profiler.cpp', H+'Profiler.h', H+'HighPrecisionTimer.h'], [('measuring', H+'Profiler.h: StartProfile, EndProfile, ProfilerBlock'), ('reports', 'bss-util/profiler.cpp: WriteToStream, _treeOut, _flatOut, _heatOut, _heatWrite, _timeFormat')], ['Profiler::WriteToStream', 'ProfilerBlock'])
prop('C25', 'Random choices stay in range, lose nothing and repeat for a seed',
 'For every sequence the random source can give, values stuck or at the ends of its range included: a random queue gives out each item put in exactly once, destroys each object exactly once, and always holds exactly what was not yet taken or removed; a shuffle is a permutation; a number from a range is never below its start and never reaches its end; an alias table draws only outcomes it has; samples of a Poisson disk sampling lie inside the area and keep their distance; a stochastic subdivision covers the area without gap or overlap; and each of them ends. With the engine of the library, seeded with any value (0 included) or from the random device, the sequence never gets stuck, repeats for the same seed however other users interleave, continues the same in a copy or after discarding, and every outcome of a shuffle, range, alias table and normal distribution comes about as often as its probability says; copied or moved tables and queues behave as their source.',
 [HI, S, F], 'every sequence of the random source, every seed, every history of pushes, pops and removals, every interleaving of users',
 'Tests draw a handful of values from one engine; extreme values of the source come up once in millions of draws and no test looks at object lifetimes in a random queue.',
 [H+'RandomQueue.h', H+'algo.h', H+'XorshiftEngine.h', H+'AliasTable.h'], [('queue and sampling', H+'RandomQueue.h: RandomQueue, PoissonDiskSample'), ('ranges and shuffle', H+'algo.h: bssrand, Shuffle, NormalZig, StochasticSubdivider'), ('engine', H+'XorshiftEngine.h: XorshiftEngine, GenXor1024Seed'), ('weighted choice', H+'AliasTable.h: AliasTable')], ['RandomQueue', 'Shuffle', 'bssrand', 'XorshiftEngine', 'AliasTable'])
prop('C26', 'TOML written or loaded over a failing stream keeps every delivered value',
 'Every serializable object written as TOML and read back is equal to the original, for every content of its members: integers up to the limits of their type, floating point numbers (at full stream precision), strings with any text, booleans, dates, fixed and growing arrays, arrays of arrays, tuples, nested objects and arrays of objects. A document of another writer gives exactly what it says, whatever its layout: comments, blank lines, order of members, quoted keys, basic, literal and multiline strings with escapes, arrays over several lines with trailing commas, tables inline or as [sections], nested sections and [[arrays of tables]], dates with an offset or in UTC, quoted numbers, members and sections the object does not have; read without a type, as TOMLValue, it gives the same tree (dates aside; integers up to 2^53 exactly), and so does a copy of that. All this is independent of how the stream delivers the bytes. When the stream ends early or fails, the load ends, values of completely delivered lines are as written, nothing is invented and a read error is visible; a write error is visible and what was written before is a prefix of the document. A damaged document may give anything, but the load ends without touching memory it does not own and without stopping the program.',
 [HI, S, F], 'every object, every layout of the document, every chunking, end and failure of the stream, every damage',
 'The test reads one fixed document; content, layouts, failures and damage multiply beyond examples.',
 [H+'TOML.h', H+'Serializer.h'], [('parsing', H+'TOML.h: TOMLEngine::ParseTOMLRoot, ParseTOMLPairs, ParseTOMLTable, ParseTOMLString, ParseArray'), ('writing', H+'TOML.h: TOMLEngine::Serialize, SerializeArray'), ('untyped', H+'TOML.h: ParseTOMLBase<TOMLValue>')], ['ParseTOML', 'WriteTOML', 'TOMLValue'])
prop('C27', 'Node containers over shared concurrent allocators hold exactly what was put in',
 'Containers of nodes (AVLTree as map and set, TRBtree, AATree, LinkedList, Hash, KDTree) whose threads share a concurrent allocator behave like a simple model of the same container for every history of insertions, removals, lookups, replaced keys, clears, copies, moves, self assignment and changed capacity, and for every interleaving of the threads that own them, also when a container is handed from one thread to another: a lookup finds an item exactly when it was put in and not removed, with its own value; near lookups give a neighbour; an iteration meets every item once and in order; removing what is missing changes nothing and says so; duplicates are kept or refused as the container promises; trees keep the balance they promise; a rectangle query of the KD tree meets exactly the items that intersect it. Every object is constructed before use and destroyed exactly once, never moved bytewise where the container promises not to, and destroying a container gives everything back to the allocator it was made with. Containers of different threads do not affect each other, also with the default allocators.',
 [HI, S], 'every history of operations on every container, every interleaving of the threads sharing the allocators',
 'The tests insert and remove one fixed sequence on one thread with the default allocator; interleavings, hand-overs, moves and lifetimes are not looked at.',
 [H+'AVLTree.h', H+'TRBtree.h', H+'AATree.h', H+'LinkedList.h', H+'LLBase.h', H+'Hash.h', H+'KDTree.h', H+'Alloc.h'], [('trees', H+'AVLTree.h, '+H+'TRBtree.h, '+H+'AATree.h: Insert, Remove, Get, Near, Clear, move'), ('list', H+'LinkedList.h: Add, Insert, Remove, Clear'), ('hash', H+'Hash.h: Insert, Remove, SetCapacity, operator='), ('rectangles', H+'KDTree.h: Insert, Remove, TraverseAction, Rebalance, Solve'), ('shared allocators', H+'Alloc.h: PolymorphicAllocator; '+H+'BlockAllocMT.h; '+H+'CacheAlloc.h')], ['AVLTree', 'TRBtree', 'AATree', 'LinkedList', 'Hash', 'KDTree'])
prop('C28', 'Array containers over shared concurrent allocators hold exactly what was put in',
 'Containers of arrays (DynArray of every array type, DynArray of bits, Array, ArrayCircular, ArraySort, Map, LinkedArray, CompactArray, Queue, Stack, BinaryHeap, PriorityHeap, PriorityQueue, ArbitraryArray) whose threads share a concurrent allocator behave like a simple model of the same container for every history of additions, insertions, removals, changed lengths and capacities, assignments of slices, appends (of a container to itself as well), clears, copies, moves, self assignment and construction from lists, slices and arrays, and for every interleaving of the threads that own them, also when a container is handed from one thread to another: the content, its order, its length, its first and last item and the given indices are those of the model; sorted containers stay sorted and find what is there, and the neighbour where it is not; heaps always give the largest item, and a key of a PriorityHeap keeps its item and is given out again once it is removed; changing the capacity never loses an item unless it promises to. Every object is constructed before use and destroyed exactly once, never moved bytewise where the array type promises not to, and destroying a container gives everything back to the allocator it was made with.',
 [HI, S], 'every history of operations on every container, every interleaving of the threads sharing the allocators',
 'The tests run one fixed sequence per container on one thread; wrapped rings, bits over byte borders, shrinking over a cache allocator, moves and lifetimes depend on the history.',
 [H+'DynArray.h', H+'Array.h', H+'ArrayCircular.h', H+'ArraySort.h', H+'Map.h', H+'LinkedArray.h', H+'CompactArray.h', H+'Queue.h', H+'Stack.h', H+'BinaryHeap.h', H+'PriorityQueue.h', H+'CacheAlloc.h'], [('arrays', H+'Array.h: ArrayBase, Array; '+H+'DynArray.h: DynArray, DynArray<bool>'), ('rings', H+'ArrayCircular.h; '+H+'Queue.h'), ('sorted', H+'ArraySort.h; '+H+'Map.h'), ('linked and compact', H+'LinkedArray.h; '+H+'CompactArray.h'), ('heaps', H+'BinaryHeap.h; '+H+'PriorityQueue.h: PriorityHeap'), ('shared allocator', H+'CacheAlloc.h: CachePolicy')], ['DynArray', 'ArrayCircular', 'ArraySort', 'Map', 'LinkedArray', 'CompactArray', 'Queue', 'Stack', 'BinaryHeap', 'PriorityHeap', 'PriorityQueue', 'ArbitraryArray'])
prop('C29', 'String tables and whole files load exactly the bytes that arrived',
 'A StringTable of any character and index type always holds exactly the strings it was made from, appended or joined, in order, through copies, moves and joins with itself; dumping it writes every string with its terminator and a sink that fails is visible on the stream. A table loaded from a stream holds exactly the strings that arrived, however the bytes are delivered and wherever delivery ends or fails: complete strings as they were written (empty ones included), at most one cut string at the end that is a prefix of the real one, and never anything that did not arrive. bssLoadFile gives exactly the bytes of the file, or nothing if it cannot be opened or read, and the length it reports is the one of what it gives.',
 [HI, F, S], 'every list of strings, every history of appends and joins, every chunking, end and failure of stream and disk',
 'The test loads one table from memory; a stream that ends early or a disk that fails never occurs.',
 [H+'StringTable.h', H+'bss_util.h', H+'Array.h'], [('table', H+'StringTable.h: constructors, AppendString, operator+=, DumpToStream'), ('whole files', H+'bss_util.h: bssLoadFile')], ['StringTable', 'AppendString', 'DumpToStream', 'bssLoadFile'], level=IO_NOTE)
prop('C30', 'UBJSON objects and documents survive writing and reading over any stream',
 'Every serializable object written as UBJSON is a document that any reader of the format understands, and read back it equals the original, for every content of its members: all integer widths and signs up to the limits of their type, floating point, booleans, characters, strings with any bytes, arrays fixed and growing (of bytes, bits, strings and objects), nested objects, hashes and variants. A document of another writer (any integer width that holds the value, typed, counted or open containers, no-ops anywhere they may stand, members the object does not have, missing members, fewer or more array elements) gives exactly what it says; an untyped document holds the same values and is written back the same. If the source ends or fails, every member that had fully arrived is kept, nothing is invented from uninitialised memory, nothing leaks and the failure shows on the stream or in the result; a sink that fails is visible.',
 [HI, F, S], 'every object, every layout of the document, every chunking, end and failure of the stream',
 'The test reads and writes one document in memory; layouts, cut and failing streams multiply beyond examples.',
 [H+'UBJSON.h', 'bss-util/UBJSON.cpp', H+'Serializer.h', H+'Variant.h'], [('parsing', H+'UBJSON.h: UBJSONEngine::ParseUBJSONValue, Parse, ParseMany, ParseArray'), ('writing', H+'UBJSON.h: UBJSONEngine::WriteUBJSON, Serialize, SerializeArray'), ('untyped', 'bss-util/UBJSON.cpp: UBJSONTuple')], ['ParseUBJSON', 'WriteUBJSON', 'UBJSONTuple'], level=IO_NOTE)
prop('C31', 'Owning handles release what they own exactly once',
 'Every object given to an owning handle (ref_ptr of a RefCounter, OwnerPtr, Variant, a captured callable of defer or StoreFunction/StoreDelegate, Singleton) stays alive and at the same value while a handle owns it and is destroyed exactly once, when the last owner lets go, for every history of copies, moves, assignments, swaps, self assignment, assignment from a part of the owned object, replaced and released values, and for every interleaving of threads that hand the handles to each other one at a time; a view that does not own never destroys. A Variant always holds the value and the type that was put in last, at an address aligned for it, is empty when it was made empty, and when copying or constructing a value throws it stays destructible and holds nothing that was never constructed. A Delegate calls the function and object it was made from with the arguments it is given. Not promised: assigning an owner from its own view, one RefCounter changed by several threads at the same time, what pointer a moved-from handle has.',
 [HI, S, F], 'every history of handles, every point where a copy throws, every hand-over between threads',
 'The tests copy and move one handle each; assignments from inside the owned object, exceptions in the middle and hand-overs are not looked at.',
 [H+'SmartPtr.h', H+'RefCounter.h', H+'Variant.h', H+'Delegate.h', H+'Singleton.h'], [('counted', H+'RefCounter.h: RefCounter, ref_ptr'), ('owner or view', H+'SmartPtr.h: OwnerPtr'), ('variant', H+'Variant.h: Variant'), ('callables', H+'Delegate.h: Delegate, StoreFunction, StoreDelegate')], ['ref_ptr', 'RefCounter', 'OwnerPtr', 'Variant', 'Delegate', 'Singleton'])
prop('C32', 'Graphs, disjoint sets and tries are what was built, and searches are right',
 'For every history of additions, removals, copies and moves, on structures of several threads that share an allocator (or the default one) and hand the structures to each other, a Graph lists exactly the nodes and edges it was given, from both ends, and gives every edge back to its allocator; ToMatrix and FromMatrix carry the same edges and nodes, also after nodes were removed; BreadthFirstGraph visits every reachable node once, in order of distance, until it is told to stop. MaxFlow_PushRelabel ends, keeps every flow between zero and the capacity, conserves it at every node and reaches the maximum, and a circulation with demands and lower bounds that exists is found through Circulation_MaxFlow and LowerBound_Circulation. A DisjointSet has exactly the sets that were united, with one name each and the right number of elements, refuses to unite what is not two set names, and MinSpanningTree chooses exactly the edges that join two parts. A Trie finds exactly the words it was made from, whatever their bytes, case-insensitively where asked to, for every index type that can number its nodes. Not promised: duplicate words in a trie, more nodes than the index type can count.',
 [HI, S], 'every history of operations, every graph and network, every list of words, every interleaving of the threads sharing the allocators',
 'The tests build one graph, one set and one trie; removed nodes, self loops, diamonds, flows that must be pushed back, high bytes and copies depend on the history.',
 [H+'Graph.h', H+'DisjointSet.h', H+'Trie.h', H+'LinkedArray.h', H+'BlockAllocMT.h'], [('graph', H+'Graph.h: Graph, BreadthFirstGraph'), ('flows', H+'Graph.h: MaxFlow_PushRelabel, Circulation_MaxFlow, LowerBound_Circulation'), ('sets', H+'DisjointSet.h: DisjointSet'), ('words', H+'Trie.h: Trie')], ['Graph', 'BreadthFirstGraph', 'MaxFlow_PushRelabel', 'DisjointSet', 'Trie'])
prop('C33', 'Pools of one owner give out exclusive blocks through moves and failures',
 'For every history of allocations, returns, resizes, clears, moves, assignments and hand-overs from one thread to another, each memory pool (BlockAlloc, BlockPolicy, BlockPolicySize, GreedyBlockPolicy, StandardAllocator with and without alignment, LocklessBlockPolicy, CachePolicy, GreedyPolicy, RingAlloc), used by one thread at a time, gives out blocks that are large enough, aligned as promised, overlap no other live block and keep what was written to them; a pool that was moved or assigned into another takes its live blocks along, so that they can be read and returned there; clearing a pool makes its memory usable again, so that a pool which is cleared after every round of the same requests soon serves them from what it has; and everything the pool took from the system goes back exactly once, whether it ends by destruction or by assignment. If the system refuses memory in a release build, the request gives a null pointer, everything that was live before stays live and intact, and the pool works again afterwards. Not promised: running out of memory in a build with assertions; lock-free pools (LocklessBlockPolicy, CachePolicy, GreedyPolicy, RingAlloc) under failing memory; using a moved-from pool for anything but destruction where it does not say that it can be used.',
 [HI, F], 'every history of operations on the pools, every allocation failure, every point at which a pool changes its thread',
 'The tests use each pool in one pattern, never move one, never return blocks to a pool that was moved into, and never run out of memory.',
 [H+'Alloc.h', H+'BlockAlloc.h', H+'BlockAllocMT.h', H+'GreedyAlloc.h', H+'GreedyBlockAlloc.h', H+'CacheAlloc.h', H+'RingAlloc.h'], [('free list of fixed blocks', H+'BlockAlloc.h: BlockAlloc'), ('buckets that grow', H+'GreedyAlloc.h, GreedyBlockAlloc.h'), ('size classes', H+'CacheAlloc.h: CacheAlloc'), ('ring of buckets', H+'RingAlloc.h: RingAlloc'), ('system memory', H+'Alloc.h: StandardAllocator, aligned_realloc')], ['BlockAlloc', 'BlockPolicy', 'GreedyBlockPolicy', 'StandardAllocator', 'CacheAlloc', 'RingAlloc'])
