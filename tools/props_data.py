HOOK_COMMITS = ["4442f31"]
SCHED = "stateless model checking of the real code: all thread schedules up to a preemption bound, under a controlled scheduler"
SEQ = "explicit-state exploration of all operation histories of the real object against a reference model"
ENUM = "exhaustive enumeration of all inputs of a bounded domain through the real code, against an independent oracle"
SN = "Bounded: thread counts, programs and preemption bounds are listed per config in the evidence; sequentially consistent memory (weaker hardware reorderings are not explored)."
QN = "Bounded: alphabet and depth are listed per config in the evidence; where 'closed' is true the whole reachable state space of that alphabet was covered."
WHYS = "A race needs one particular interleaving of a few instructions; running threads in a test samples the schedules the machine happens to produce."
WHYQ = "The number of operation histories is exponential; a unit test walks a handful of them and checks them at a few points."

P("A01", "RWLock gives exclusive writers, shared readers, and never gets stuck",
  "For every set of threads using Lock, AttemptLock, AttemptStrictLock, RLock, AttemptRLock, Upgrade, AttemptUpgrade, Downgrade and the matching releases correctly: while one thread holds the write lock (directly or by upgrade) no other thread holds a read or write lock; readers may share; data written under the write lock is seen whole by every later holder; a failed Attempt changes nothing; every blocking acquisition returns once the conflicting holders have released (no deadlock, no lost wake-up); and when all holders have released, the lock is free again (IsFree, ReaderCount()==0) and can be acquired in every mode.",
  "schedules", "all interleavings of up to 4 threads running all programs over the lock's operations", WHYS, [I + "RWLock.h", I + "lockless.h"],
  [("write bit and reader count in one word", I + "RWLock.h")], SCHED, SN)
P("A02", "LocklessQueue is a linearizable FIFO for one producer and one consumer",
  "With one thread calling Push and one thread calling Pop/Peek, in every schedule: elements come out exactly once, in push order, with the value pushed; Pop returns false and Peek returns false only if the queue was empty at some instant during the call; Length() equals the number of elements whenever no call is running; no node is used after it was released; and destroying the queue destroys the remaining elements exactly once. Distinct queues do not affect each other, also when they are used by different threads and share the default allocator.",
  "schedules", "all interleavings of one producer and one consumer, and of two independent queues", WHYS, [I + "LocklessQueue.h", I + "BlockAllocMT.h", I + "BlockAlloc.h"],
  [("publication through _last and _div, deferred node release", I + "LocklessQueue.h")], SCHED, SN)
P("A03", "MicroLockQueue is a linearizable FIFO for many producers and consumers",
  "With any number of threads calling Push, Pop and Peek concurrently, every history is linearizable with respect to a FIFO queue: no element is lost, duplicated, reordered or torn; Pop/Peek report empty only if the queue was empty at some instant during the call; Length() is exact whenever no call is running; nodes are never touched after release; every element is destroyed exactly once. Moving a queue, or assigning it over another that holds elements, keeps the contents and releases what the target held.",
  "schedules", "all interleavings of up to 3 threads over all push/pop/peek programs", WHYS, [I + "LocklessQueue.h", I + "BlockAllocMT.h"],
  [("producer and consumer flags, sentinel node", I + "LocklessQueue.h")], SCHED, SN)
P("A04", "LocklessBlockPolicy hands out disjoint blocks under every schedule",
  "With threads calling allocate and deallocate concurrently on one LocklessBlockPolicy: every returned block is suitably aligned, lies wholly inside the allocator's memory and overlaps no other live block; contents of a live block are never modified by the allocator; deallocated blocks become available again; growth of the pool under contention loses nothing; the destructor and move assignment release all memory the target owned, and blocks stay valid when their allocator is moved.",
  "schedules", "all interleavings of up to 3 threads over all allocate/deallocate programs, including pool growth and ABA histories", WHYS, [I + "BlockAllocMT.h", I + "lockless.h"],
  [("tagged free list head, 16 byte compare-and-swap", I + "BlockAllocMT.h")], SCHED, SN)
P("A05", "RingAlloc hands out disjoint blocks and recycles buckets safely",
  "With threads calling Alloc and Dealloc concurrently on one RingAllocVoid/RingAlloc with any mix of sizes: every returned block lies inside the allocator's memory and overlaps no other live block; contents of live blocks are preserved; a bucket is reset or freed only when none of its blocks is live; a bucket whose blocks were all given back is used again, so a steady load does not grow the allocator; Alloc always terminates; Clear, moves and the destructor release what they replace, and blocks stay valid when their allocator is moved.",
  "schedules", "all interleavings of up to 3 threads over all programs with two block sizes and buckets small enough to overflow", WHYS, [I + "RingAlloc.h", I + "RWLock.h"],
  [("per-bucket reader lock, recycling list", I + "RingAlloc.h")], SCHED, SN)
P("A06", "GreedyAlloc hands out disjoint blocks across concurrent growth",
  "With threads calling Alloc concurrently on one GreedyAlloc: every returned block has the configured alignment, lies wholly inside a chunk of the allocator and overlaps no other block handed out since construction or Clear; Alloc always terminates, also when several threads exhaust the chunk at once; Clear, moves and the destructor release what they replace; resizing through GreedyPolicy keeps the contents.",
  "schedules", "all interleavings of up to 3 threads over all programs with two block sizes and chunks small enough to overflow", WHYS, [I + "GreedyAlloc.h", I + "RWLock.h"],
  [("atomic bump position, chunk replacement under the upgraded lock", I + "GreedyAlloc.h")], SCHED, SN)
P("A07", "CacheAlloc hands out disjoint blocks of the right size under every schedule",
  "With threads calling Alloc(size) and Dealloc(p, size) concurrently on one CacheAlloc, with sizes below and above its cache limit: live blocks never overlap, contents of live blocks are preserved, a recycled block is only reused for its own size and is found again by the next request of that size, the size table may grow concurrently, moves and the destructor release what they replace, blocks stay valid when their allocator is moved, and resizing through CachePolicy keeps the contents.",
  "schedules", "all interleavings of up to 3 threads over all programs with three block sizes", WHYS, [I + "CacheAlloc.h", I + "GreedyAlloc.h", I + "Hash.h"],
  [("size table under a reader-writer lock, tagged free lists", I + "CacheAlloc.h")], SCHED, SN)
P("A08", "ThreadPool runs every task exactly once and Wait really waits",
  "For every schedule of clients and workers (at least one worker): each task submitted with AddTask (once per requested instance; one per worker for 0) or AddFunc runs exactly once with its own arguments, which are destroyed once the call is finished; when Wait() returns, every task the caller submitted before, and every task those submitted, has finished and Busy() is 0; no wake-up is lost; destruction waits for all tasks, stops all workers, and terminates.",
  "schedules", "all interleavings of clients and 1-2 workers over small task sets, including tasks that submit tasks", WHYS, [I + "ThreadPool.h", I + "Thread.h", I + "LocklessQueue.h", I + "RingAlloc.h"],
  [("task count, run count, semaphore", I + "ThreadPool.h")], SCHED, SN)
P("A09", "The atomic primitives are exact and atomic for every operand size",
  "atomic_xadd, atomic_xchg, asmcas, asmcasr (1, 2, 4, 8 bytes; compare-and-swap also 16) and asmbts, asmbtr (4, 8 bytes; every bit, constant or not) read and write exactly their operand and no neighbouring byte, return the documented previous value or success flag, and concurrent uses are linearizable.",
  "inputs", "all operand sizes x boundary values x neighbouring contents; all interleavings of 2-3 threads over all operation pairs; at machine level, a second operation at every instruction boundary of the first", "Width and addressing mistakes only show for particular sizes, bit numbers, neighbours and optimisation levels.", [I + "lockless.h"],
  [("inline assembly and compiler builtins selected by operand size", I + "lockless.h")], SCHED + "; exhaustive operand enumeration", SN + " At instruction level one operation is single-stepped and a second one inserted before every instruction of it, and between load and store of any read-modify-write instruction without a lock prefix; memory ordering is not judged.", hook="BSS_MC_POINT in the inline assembly wrappers")
P("A10", "Thread joins reliably and Semaphore counts its notifications",
  "Thread::join(timeout) waits for exactly the requested time from now (valid deadline for every clock value and timeout), reports a timeout exactly if the thread has not ended, and leaves the object joinable then and not joinable after success; join(0) never blocks; destroying a Thread waits for its thread; moving transfers ownership. N notifications on a Semaphore let exactly N waits through.",
  "schedules", "all schedules of one client and its thread x clock values x timeouts; all schedules of 3 waiters and a notifier", "The failure depends on the clock's nanosecond field and on when the thread ends.", [I + "Thread.h"],
  [("deadline computation", I + "Thread.h")], SCHED, SN)
P("C20", "AVLTree stays an ordered, height-balanced map that owns its nodes",
  "After every history of Insert, Remove, ReplaceKey, Clear and moves, the tree holds exactly the keys inserted and not removed, each with its own data; Get/GetRef find exactly those; Near returns a neighbour of the key; traversal visits all keys in order; subtree heights differ by at most one at every node; Insert refuses duplicates and Remove reports whether the key existed; every node and element is destroyed exactly once.",
  "histories", "all histories over small key sets until no new tree shape appears", WHYQ, [I + "AVLTree.h"],
  [("rotations on insertion and removal", I + "AVLTree.h")], SEQ, QN)
P("C01", "Array, DynArray and CompactArray are exact sequences that own their elements",
  "After every history of Add, AddConstruct, Insert, Remove, RemoveLast, SetLength, SetCapacity, Clear, Set, concatenation (also with itself), construction from lists and slices, copies, moves and self-assignment, for every array type (simple, constructed, safe, move-only): the array holds exactly the expected sequence (indexing, iteration, Front/Back and slices agree), capacity is never below length, copies are independent, moved-from arrays are empty, reallocation preserves elements, each element is constructed and destroyed exactly once, and all memory is released. Sub-slices (from either end), multi-dimensional views and stack arrays address exactly the requested elements.",
  "histories", "all histories of two arrays over a small alphabet of values and positions", WHYQ, [I + "Array.h", I + "DynArray.h", I + "CompactArray.h"],
  [("element moves by array type on growth and shifting", I + "Array.h"), ("inline storage that spills to the heap", I + "CompactArray.h")], SEQ, QN + " Arguments that alias the container are excluded.")
P("C02", "Bit containers store and return exactly the bits they were given",
  "DynArray<bool>: after every history of Add, Insert, Remove, Set, SetLength, copies and moves, the bits, the length, iteration in both directions, Front/Back, CountBits, SetBits and ranges agree with a list of booleans. BitField and BitStream: reading any sequence of bit runs and typed values gives back what was written at the same widths and disturbs no neighbouring bits, also when the stream object is moved or assigned in the middle of a byte; bssSerialize and bssDeserialize round-trip. ArbitraryArray keeps elements of any run-time element size intact across Add, Remove, Set, SetElement and moves.",
  "histories", "all bit patterns up to the listed lengths x all operations at all positions", WHYQ, [I + "DynArray.h", I + "BitField.h", I + "BitStream.h", I + "Array.h"],
  [("bit shifts across byte boundaries", I + "DynArray.h")], SEQ, QN)
P("C03", "ArrayCircular, Queue and Stack keep order across wrap-around and growth",
  "After every history of pushes, pops, discards, capacity changes, copies and moves: Queue is first-in first-out, Stack is last-in first-out, ArrayCircular keeps the most recent Capacity() elements indexed from the newest and iterates them in that order; lengths are exact; growing while wrapped around keeps the order; elements are constructed and destroyed exactly once.",
  "histories", "all histories of two containers over small capacities until no new state appears", WHYQ, [I + "ArrayCircular.h", I + "Queue.h", I + "Stack.h"],
  [("wrap-around arithmetic and re-linearisation on growth", I + "ArrayCircular.h")], SEQ, QN + " Pushing into an ArrayCircular of capacity 0 is a precondition violation; shrinking clears by design.")
P("C04", "ArraySort and Map stay sorted and exact; binary searches are exact",
  "After every history of Insert, Remove, ReplaceData/SetKey, Discard, copies and moves, ArraySort and Map hold exactly the expected multiset in comparator order, returned indices hold the inserted element, Find/Get succeed exactly for present keys, FindNear gives the neighbour on the requested side, and each Map key keeps its own data. BinarySearchExact/Near/Before/After return the specified index for every sorted array and key, including duplicates and empty ranges.",
  "histories", "all histories over small key sets with duplicates; all sorted arrays up to the listed length x all keys", WHYQ, [I + "ArraySort.h", I + "Map.h", I + "algo.h"],
  [("binary search bounds", I + "algo.h"), ("re-sorting after replacement", I + "ArraySort.h")], SEQ, QN)
P("C05", "Hash is an exact map or set across collisions, growth and rebuilds",
  "After every history of Insert, Set, Remove, RemoveIter, Clear, SetCapacity, copies, moves and self-assignment, for every hash function (including constant ones): the table holds exactly the expected keys, each with its latest data; Get/Exists/Iterator find exactly those; iteration visits each element once; Length is exact; keys whose hashes collide never shadow or lose each other; lookups terminate; case-insensitive string tables fold case; composite keys match only when every part does; keys and data are constructed and destroyed exactly once and owned strings are copied.",
  "histories", "all histories over small key sets with degenerate hash functions and minimal tables", WHYQ, [I + "Hash.h"],
  [("open addressing with deleted marks; in-place rehash", I + "Hash.h")], SEQ, QN + " Float keys are excluded.")
P("C06", "TRBtree stays an ordered, balanced, threaded multiset that owns its nodes",
  "After every history of Insert, Remove by value and by node, Clear and moves: walking next from Front and prev from Back visits exactly the inserted values in order including duplicates; Get finds exactly the present values; GetNear returns the nearest value on the requested side; red-black rules and black heights hold, so height stays logarithmic; a node pointer stays valid until that node is removed; every node and element is destroyed exactly once.",
  "histories", "all histories over small value sets with duplicates until no new tree shape appears", WHYQ, [I + "TRBtree.h", I + "LLBase.h"],
  [("red-black rebalancing with threaded duplicates", I + "TRBtree.h")], SEQ, QN + " Moves between trees with different allocator policies are excluded.")
P("C07", "AATree stays an ordered, balanced multiset that owns its nodes",
  "After every history of Insert, Remove and Clear: traversal visits exactly the inserted values in order, Get finds exactly the present ones, Remove reports whether the value was present and removes exactly one copy, the height stays logarithmic, IsEmpty/GetRoot agree, and every node and element is constructed and destroyed exactly once.",
  "histories", "all histories over small value sets with duplicates until no new tree shape appears", WHYQ, [I + "AATree.h"],
  [("skew and split on insertion and removal", I + "AATree.h")], SEQ, QN)
P("C08", "Heaps and priority queues keep heap order and never mix up elements",
  "After every history of insertions, Set, Remove at any position, Pop, Discard, Clear, copies and moves: BinaryHeap, PriorityQueue and PriorityHeap hold exactly the expected elements in heap order for their comparison, Peek/Pop give an extreme element, each PriorityQueue priority keeps its own data, and a PriorityHeap key returned by Push addresses the same element until that element leaves and is then reusable. HeapSort sorts and Heapify heapifies every array. RandomQueue pops an element it holds, removes exactly that one, and can pop any element. Elements are destroyed exactly once.",
  "histories", "all histories over small priority sets; all arrays and permutations up to the listed length", WHYQ, [I + "BinaryHeap.h", I + "PriorityQueue.h", I + "AliasTable.h", I + "XorshiftEngine.h"],
  [("percolation up and down, key table maintenance", I + "BinaryHeap.h"), ("key free list", I + "PriorityQueue.h")], SEQ, QN)
P("C09", "Linked lists (LinkedList, LinkedArray, intrusive helpers) stay consistent",
  "After every history of Add, Insert/InsertBefore/InsertAfter at any node, Remove of any node, Clear, and copies and moves of a LinkedArray: walking forwards and backwards visits exactly the expected elements in order, head, tail and length agree, a node pointer or index stays valid and keeps its element until that element is removed, LinkedArray never hands out an index in use, Item searches find the next match in the requested direction, and elements are constructed and destroyed exactly once. The LL* helpers keep root, last and both link directions consistent.",
  "histories", "all histories over small value sets and all positions", WHYQ, [I + "LinkedList.h", I + "LinkedArray.h", I + "LLBase.h"],
  [("link surgery", I + "LLBase.h"), ("index free list", I + "LinkedArray.h")], SEQ, QN + " Copying or moving a LinkedList does not compile and is not covered. Add goes to the front of a LinkedList without a tail pointer.")
P("C10", "Trie lookups and DisjointSet partitions are exact",
  "For every word list a Trie (case sensitive or not) was built from, looking up a string gives the index of an equal word of the list, and -1 for every other string, also after copies and moves. After every history of Union, Find, Reset, AddSets, copies and moves a DisjointSet represents exactly the partition the unions describe: Find gives the same name for exactly the elements joined so far, IsSetName, NumSets, NumElements and GetElements agree with it, and Union of anything that is not two distinct set names changes nothing. MinSpanningTree gives a spanning forest without cycles, taking edges in the order given.",
  "inputs", "all word lists over small alphabets x all queries; all union histories", WHYQ, [I + "Trie.h", I + "DisjointSet.h"],
  [("child table layout", I + "Trie.h"), ("path compression and set names", I + "DisjointSet.h")], SEQ, QN + " A Trie is built from at least one word; MinSpanningTree needs at least one vertex.")
P("C11", "Graphs keep their adjacency; traversal and max flow are correct on every graph",
  "After every history of AddNode, AddEdge, RemoveNode, RemoveEdge and moves a Graph holds exactly the expected nodes and edges, linked at both ends; building from and converting to an adjacency matrix round-trips; BreadthFirstGraph visits exactly the vertices reachable from the root, once each, nearest first, and stops when told; MaxFlow_PushRelabel terminates with a feasible flow (capacity and conservation) of maximum value, and the circulation functions report feasibility correctly.",
  "inputs", "all graphs, multigraphs and networks up to the listed sizes; all edit histories", WHYQ, [I + "Graph.h"],
  [("edge lists of both ends", I + "Graph.h"), ("push/relabel loop", I + "Graph.h")], SEQ, QN + " Edge data are plain data. Graph::GetNode does not compile and is not covered.")
P("C12", "A KD-tree query finds exactly the stored rectangles it touches",
  "After every history of Insert, Remove, Clear, Rebalance, InsertRoot followed by Solve on an empty tree, and moves, for every rebalancing threshold: Traverse and TraverseAction call the action exactly once for every stored item whose rectangle touches the query rectangle and for no other, TraverseAll reaches every item, every item knows the node that holds it, and every node's count and coordinate sums are those of its subtree.",
  "histories", "all histories over fixed rectangle sets, all insertion sequences over small grids, x all grid queries", WHYQ, [I + "KDTree.h"],
  [("insertion path and divider", I + "KDTree.h"), ("rebalancing moves items that cross a boundary upwards", I + "KDTree.h")], SEQ, QN + " Coordinates are small multiples of 1/2, so sums are exact.")
P("D01", "ref_ptr, OwnerPtr, Variant and Delegate keep and release values exactly once",
  "After every history of construction, assignment (also to itself and from an object reachable only through the target), moves, release and destruction: an object managed by RefCounter/ref_ptr lives exactly as long as someone holds a reference; an OwnerPtr deletes what it owns exactly once and never what it was not given ownership of; a Variant holds exactly the value and type last assigned, aligned for that type, destroying the old value once; a Delegate (member, const member, static, stored lambda, copied or moved) calls exactly its target with the arguments given, references included, and a copy of a counted object starts with no references.",
  "histories", "all histories over two or three handles and small sets of objects and types", WHYQ, [I + "RefCounter.h", I + "SmartPtr.h", I + "Variant.h", I + "Delegate.h"],
  [("reference counting on assignment", I + "RefCounter.h"), ("ownership bit", I + "SmartPtr.h"), ("type tag and in-place construction", I + "Variant.h")], SEQ, QN + " Variant's const convert() does not compile and is not covered.")
P("D02", "UTF-8/UTF-32 conversion, Str helpers and StringTable are exact",
  "Converting any sequence of code points to UTF-8 and back gives the same sequence; the size asked for suffices; with a smaller buffer the result is a prefix that ends between characters; ill-formed UTF-8 is never decoded to something it does not encode; conversions neither read past the source nor write past the buffer. Str constructed, assigned, concatenated, trimmed, stripped, formatted or split from any text, of any character type, holds exactly the specified characters. A StringTable returns exactly the strings given, of any character type, after appending, concatenation, copies, moves and a pass through a stream.",
  "inputs", "every code point; all short byte strings over boundary bytes x all buffer sizes; all strings over small alphabets; all table histories", WHYQ, [I + "utf_conv.h", "bss-util/ConvertUTF.c", "bss-util/bss_util_c.c", I + "Str.h", I + "StringTable.h"],
  [("buffer bounds and truncation", "bss-util/ConvertUTF.c"), ("removal of the terminator", I + "Str.h"), ("index table", I + "StringTable.h")], SEQ, QN + " wchar_t/UTF-16 conversion is excluded: on Linux its interface mixes 16 and 32 bit units.")
P("D03", "Block and standard allocators hand out disjoint, aligned, persistent memory",
  "For every history of Alloc, Dealloc and Clear within the documented preconditions, BlockAlloc, BlockPolicy, BlockPolicySize, GreedyBlockPolicy and StandardAllocator (plain and over-aligned): each live block is as large and aligned as asked, overlaps no other live block, keeps its contents until it is freed (also across growth), freed memory is reused, reallocation keeps the contents, and everything is released exactly once at the end. AlignSize rounds up to the next multiple.",
  "histories", "all histories over small numbers of live blocks, several block sizes and alignments", WHYQ, [I + "BlockAlloc.h", I + "GreedyBlockAlloc.h", I + "Alloc.h"],
  [("free list and chunk growth", I + "BlockAlloc.h"), ("aligned reallocation", I + "Alloc.h")], SEQ, QN)
P("D04", "JSON written parses back to the same value; well-formed JSON is read exactly",
  "Every JSONValue tree and every serializable structure (numbers of all widths, floating point, booleans, strings with any characters, enums, nested structures, dynamic and fixed arrays, vectors, tuples, maps) is written as well-formed JSON, pretty or not, that parses back to the same value. Every well-formed text, with any whitespace, escapes (including surrogate pairs) and number notation, is parsed to exactly its value; structure members may come in any order, numbers may be given as strings, and unknown members are skipped completely. Every other text is parsed without crashing, hanging or touching memory it must not.",
  "inputs", "all small value trees; all token and byte sequences up to the listed length; all member orders; every escaped code point", WHYQ, [I + "JSON.h", I + "Serializer.h"],
  [("recursive descent over a stream", I + "JSON.h"), ("member lookup and skipping", I + "Serializer.h")], SEQ, QN + " Integers outside of 64 bits, NaN and infinity, null characters in keys and values of the wrong kind for a structure member are excluded.")
P("D05", "XML written parses back to the same tree; node edits keep every child reachable",
  "Every tree of XML nodes, with any text and attribute values, and every serializable structure is written, pretty or not, as XML that parses back to the same tree or structure. Every well-formed document of elements, attributes, entities and comments is parsed to exactly its tree. After every history of adding, removing, copying, assigning and moving nodes and attributes, each child and attribute is reachable by index, by name and through the list of its namesakes, and nothing else is. Every other text is parsed without crashing, hanging or touching memory it must not.",
  "inputs", "all small trees x all awkward texts; all token and byte sequences up to the listed length; all edit histories", WHYQ, ["bss-util/XML.cpp", I + "XML.h", I + "Serializer.h"],
  [("pattern match over a seekable stream", "bss-util/XML.cpp"), ("name index over the children", "bss-util/XML.cpp")], SEQ, QN + " Text that is only whitespace is not kept, pretty printing adds whitespace to mixed text; raw > inside of attributes and single quoted attributes are not understood by the parser and are excluded.")
P("D06", "INI storage and the INI text stay in step through every edit history",
  "Reading an INI file gives exactly its sections and entries (names and keys case insensitive, repeated ones kept as instances in order, comments and garbage lines ignored), whatever its line endings and whether or not the last line is terminated, and the section and entry finders find exactly these. After every history of adding and removing sections, inserting, changing and deleting entries (through the storage or a section), saving, reloading, discarding, copying and moving, the storage holds exactly the expected sections and entries, each section knows its storage and index, failing edits change nothing, and the file saved at that point reads back as the same sections and entries.",
  "histories", "all texts of line tokens and bytes up to the listed length; all edit histories from several initial files", WHYQ, ["bss-util/INIParser.c", "bss-util/INIstorage.cpp", "bss-util/INIsection.cpp", "bss-util/INIentry.cpp"],
  [("text edits at found positions", "bss-util/INIstorage.cpp"), ("instance arrays of the first namesake", "bss-util/INIsection.cpp"), ("line classification", "bss-util/INIParser.c")], SEQ, QN + " Section headers without ] or with a blank name, lines over 1023 characters, and keys or values containing line breaks or ; are excluded.")
P("D07", "UBJSON documents and typed structures survive every write and read",
  "Reading any well-formed UBJSON document gives exactly the value it encodes, whichever of the equivalent encodings was used (optimised containers with type and count, with count only, or with an end marker; any length width; no-ops between elements), consuming exactly its bytes; writing a value and reading it back gives an equal value, and the written bytes are well-formed UBJSON for it. Numbers of every width keep their value at all boundaries, strings keep every byte, and typed structures (numbers, enums, strings, nested objects, arrays, fixed arrays, tuples, byte arrays) survive, with unknown members and surplus elements skipped. Copies and moves of a value are equal to it. Arbitrary, truncated or corrupt bytes never cause a memory error, endless loop or leak: the reader stops, with an exception where it reports one (always for a negative length).",
  "inputs", "all value trees and documents up to the listed depth and length in all encodings; all short byte sequences; every truncation and single-byte corruption", WHYQ, ["bss-util/UBJSON.cpp", "include/bss-util/UBJSON.h", "include/bss-util/Serializer.h"],
  [("type and count headers", "include/bss-util/UBJSON.h"), ("smallest encoding of a number", "bss-util/UBJSON.cpp"), ("skipping unread values", "include/bss-util/UBJSON.h")], SEQ, QN + " Values of the wrong kind for a typed member, counts of payload-less elements, no-ops before an end marker and long double are excluded.")
P("D08", "TOML written parses back to the same value; well-formed TOML is read exactly",
  "Every serializable structure (numbers of all widths, floating point, booleans, strings with any characters, enums, dates to the second, nested structures, dynamic and fixed arrays, arrays of arrays and of structures, tuples, maps with any keys) is written as well-formed TOML that parses back to the same value, also with one Serializer used repeatedly. Every well-formed document of pairs, tables, nested tables, arrays of tables, nested and multi-line arrays with comments and trailing commas, inline tables, the four kinds of strings with all escapes, decimal numbers, booleans and dates, with any line ends, is parsed into a TOMLValue (integral numbers as integers) or a structure as exactly its value; unknown members and tables are skipped completely, whatever they contain. Every other text is parsed without crashing, hanging or touching memory it must not.",
  "inputs", "every kind of value in every place of a document; all sequences of header and pair lines and all nested values up to the listed size; all byte and token sequences up to the listed length; every prefix and deletion of a document", WHYQ, [I + "TOML.h", I + "Serializer.h"],
  [("table headers resolved through the serializer", I + "TOML.h"), ("two passes over a structure when writing", I + "TOML.h"), ("member lookup and skipping", I + "Serializer.h")], SEQ, QN + " Hexadecimal, octal and binary integers, digit separators, inf and nan, times without a date, fractions of a second, line breaks inside of inline tables, dotted keys of pairs, targets that are not empty and values of the wrong kind are excluded.")
P("D09", "Timers, schedulers and animations fire every event exactly once and on time",
  "Under every sequence of clock readings the timer reports exactly the elapsed, warped or overridden time in milliseconds and nanoseconds and never runs backwards. A Scheduler fires, on each update, exactly the events that are due, once each, in the order of their due times, reschedules exactly those that return a positive delay, and lets events add events. An Animation, through every history of steps, loops, skips and resets, calls every discrete frame it passes exactly once per pass and in order, begins every interval at its time and ends it exactly once (at its end, on a reset, or when the state is destroyed), sets smooth values to exactly the interpolation between the surrounding frames with the chosen rule and easing, and reports its time, length and end correctly through every edit, copy and move of its frames.",
  "histories", "all histories of updates, additions, steps, skips and resets up to the listed depth under a virtual clock, over all small sets of frames, lengths and loop points", WHYQ, [I + "Animation.h", I + "Scheduler.h", I + "HighPrecisionTimer.h", "bss-util/HighPrecisionTimer.cpp"],
  [("frame cursors and interval queue", I + "Animation.h"), ("min-heap of due times", I + "Scheduler.h"), ("clock differences", "bss-util/HighPrecisionTimer.cpp")], SEQ, QN + " The clock is replaced by a virtual one. Frames of one track at the same time, quadratic and cubic path data (which do not compile) and loop points at or after the end are excluded.")
P("E01", "Bit, integer, rounding and float helpers equal exact arithmetic",
  "For every operand in their domain, the integer and bit helpers of bss_util.h (bit counts, masks and ranges, bit set/get, absolute value, signs, floor division and modulo, double-width multiply-and-shift, integer square root, base 2 logarithm, next power of two, type limits for any number of bits, safe shifts, byte order reversal, day numbers, FNV-1a hashes) return exactly the mathematical result for every integer width and signedness; float comparison counts representable steps across the whole range including zero and infinity; truncation and rounding are exact on the range of int; fast square roots, angle distances, running averages and variances and interpolation are accurate to the precision of the type.",
  "inputs", "all 8 and 16 bit operands, the neighbourhood of every power of two for 32 and 64 bits, every mantissa for square roots, 4400 years of days", WHYQ, [I + "bss_util.h", I + "defines.h", "bss-util/bss_util_c.c"],
  [("BitLimit, masks, multiply-extract", I + "bss_util.h"), ("ULP comparison", I + "bss_util.h")], SEQ, QN + " IntDiv and bssMod are documented for positive divisors only; FNV of bytes above 127 (sign extended) is excluded.")
P("E02", "Rational, Fixed and Dual arithmetic is exact",
  "A Rational built or computed by any operator from in-range terms is the exact fraction in lowest terms with a positive denominator, compares as the exact numbers do, also against integers, and does not overflow where the simplified result fits. Fixed numbers of any format convert to and from integers, reals and other formats, add, subtract, multiply, divide, shift and compare exactly to the last bit (rounding down on multiplication and format change, toward zero on division), also when both operands are of different formats or one is a float or double. A Dual holds the exact value and derivatives, of every order it is declared for, of the expression it was computed by.",
  "inputs", "all pairs of small fractions; all pairs of boundary and small fixed point bit patterns in several formats; all expressions of depth two over 13 operators", WHYQ, [I + "Rational.h", I + "FixedPt.h", I + "Dual.h"],
  [("simplification before multiplication", I + "Rational.h"), ("format shifts", I + "FixedPt.h"), ("derivative recurrences", I + "Dual.h")], SEQ, QN + " Rational comparisons go through double, so terms are bounded; 64 bit fixed division is only checked to the precision of its reciprocal.")
P("E03", "Text, byte, search and random helpers give the exact result inside their buffers",
  "For every input: Base64 encodes to the standard text and decodes it back, also when the text is illegal; integer printing in every base, trimming, bounded string copies, code point output, command line splitting and dispatch, and printf-like formatting give exactly the expected text and never write outside of the buffer they were given; loading a file gives exactly its contents; byte search finds exactly the first occurrence; the binary searches return exactly the before, after or equal position for every sorted array; the breadth first walk visits every node of every tree exactly once, level by level; shuffling is a permutation; random integers stay inside their range and reach every value of it; a random engine never repeats a short cycle, whatever its seed; an alias table, also a copied one, draws every index with exactly its probability.",
  "inputs", "all byte strings, sorted arrays, trees, weights and buffer sizes up to the listed length", WHYQ, [I + "bss_util.h", "bss-util/bss_util_c.c", I + "algo.h", I + "AliasTable.h", I + "XorshiftEngine.h"],
  [("bounded buffers", "bss-util/bss_util_c.c"), ("search loops", I + "algo.h"), ("alias construction", I + "algo.h")], SEQ, QN + " What an unterminated quote gives in a command line and random real numbers rounded to their upper bound are excluded.")
P("E04", "Stream buffers and the Logger lose, invent and reorder no character",
  "Through every sequence of reads, peeks, put backs, unreads, block reads, seeks and writes, a stream over memory (StreamBufArray), over a growing array (StreamBufDynArray, for any element type), over functions (StreamBufFunction) and over several targets (StreamSplitter) behaves exactly as a standard string stream over the same characters: the same characters, counts and positions, failing where it fails and touching no memory outside of its own. A Logger, through every history of adding and removing targets and streams, assimilating streams, setting levels and formats, moving and logging, delivers each enabled entry exactly once, complete and in order to every target, suppresses exactly the levels disabled by any maximum, and gives every assimilated stream its own buffer back. Entries are stamped with the local date and time, for every time zone and point in time.",
  "histories", "all operation sequences up to the listed depth over several buffer contents and sizes", WHYQ, [I + "stream.h", I + "Logger.h", "bss-util/Logger.cpp"],
  [("get and put areas", I + "stream.h"), ("assimilated stream buffers", "bss-util/Logger.cpp")], SEQ, QN + " Seeking the write position and a level equal to the maximum level are excluded.")
P("E05", "Vectors, matrices and SIMD lanes compute exactly what their components say",
  "For every element type and dimension offered: arithmetic, comparison, conversion, swizzles, dot, cross and outer products, lengths, distances and normalization of a Vector agree with the same computation component by component and leave the operands alone; a Matrix multiplies, transposes (in place, by method or by operator), inverts, takes determinants, adds, converts, composes (identity, scaling, translation, rotation about every axis, quaternion, affine, projections) and transforms vectors as the textbook definition over its elements says, for square and non-square shapes; every SIMD vector operation (arithmetic, shifts, masks, comparisons, minimum, maximum, rounding, shuffles, sums, loads and stores) does in every lane what the scalar operation does, and the optimized spline evaluators agree with their matrix definition.",
  "inputs", "all operands over a small value set per component, for float, double and integers, dimensions 2 to 5, shapes up to 4x4", WHYQ, [I + "vector.h", I + "sseVec.h", I + "algo.h"],
  [("specialized 4 lane paths", I + "vector.h"), ("intrinsics per element type", I + "sseVec.h")], ENUM, QN + " NaN lanes, initializer lists shorter than the vector and the build without SSE are excluded.")
P("E06", "Shapes contain, collide, intersect and measure as their geometry says",
  "For every circle, sphere, line, ray, segment, rectangle, triangle, ellipse, circle sector and polygon: containment and collision answers are those of exact geometry (circles open, rectangles half open for points and closed for collisions, segment against circle meaning its outline); reported intersections are as many as there are, lie on both shapes and are in the coordinates of the arguments, with no garbage when shapes touch, are parallel or are concentric; nearest points, distances, areas, centroids, bounding boxes, unions, intersections and conversions to other element types are exact up to rounding; convexity is recognized and both polygon containment tests agree with the winding number.",
  "inputs", "all shapes on a small integer (and half integer) lattice, against exact integer arithmetic or, for ellipses and sectors, a long double oracle with a margin", WHYQ, [I + "Geometry.h", I + "Collision.h"],
  [("parametric intersections", I + "Collision.h"), ("sector arcs and angle wraparound", I + "Geometry.h")], ENUM, QN + " Answers within rounding of a boundary that is not on the lattice, collinear overlapping segments, degenerate (zero length) lines and a sector lying wholly inside a polygon are excluded.")
P("D10", "Library types survive every serializer",
  "Every container and value type of the library that declares itself serializable (vectors, matrices, shapes and polygons, dynamic, bit, compact, sorted and circular arrays, stacks, queues, heaps, hash sets, hash maps, sorted maps, variants, arrays of pairs, arrays of arrays) and the standard vectors, arrays and tuples, holding any small value and placed between other members of a structure, is written by the JSON, UBJSON and TOML engines so that the same engine reads back an equal value, with the same elements in the same order where there is one, and leaves the members around it intact.",
  "inputs", "all values of each type up to the listed length over a small set of elements, through all three engines", WHYQ, [I + "Serializer.h", I + "JSON.h", I + "UBJSON.h", I + "TOML.h"],
  [("arrays, fixed arrays and key/value pairs", I + "Serializer.h"), ("element insertion while parsing", I + "DynArray.h")], ENUM, QN + " Reading into an object that is not empty and XML (which the serializer interface does not cover for all of these types) are excluded.")
P("E07", "Curves, polynomial solvers, quadrature and samplers match their definitions",
  "For every operand: the spline and Bezier evaluators return the value of the polynomial they document; splitting a quadratic or cubic curve gives two curves that trace the same points; quadratic and cubic solvers return exactly the real roots, as many as there are; inflection points are where the curvature vanishes; the approximation of a cubic by quadratics starts and ends where the curve does, is gapless and nowhere further away than the given error; fitted parabolas pass through their points; Newton's method reports success exactly if it converged and the bisecting variant finds the root of every increasing function in its interval; Gaussian quadrature is exact for every polynomial of the degree its points allow; subdividing a rectangle partitions it; the ziggurat has boxes of equal area, accepts exactly the points below the normal density and Poisson disk samples stay inside the area and keep their distance.",
  "inputs", "all control points, coefficients and intervals on a small integer lattice; all subdivision choices; a grid of all random draws of the ziggurat", WHYQ, [I + "algo.h", I + "RandomQueue.h"],
  [("closed form solvers", I + "algo.h"), ("recursive subdivision", I + "algo.h"), ("ziggurat tables", I + "algo.h")], ENUM, QN + " The fast square root limits solvers to approximate roots; Poisson disk sampling is only explored over a range of seeds; cubics with a vanishing leading coefficient and double roots reported once are allowed.")
P("D11", "The profiler attributes every nanosecond to the right point and call path",
  "For every program of properly nested profiling zones (scopes or begin/end pairs, repeated, recursive, with any number of points) and every sequence of measured times: the tree report lists exactly the call paths that ran, each once, indented under its caller and with its average time; the flat report lists every registered point once under its own name with the average over all its calls, longest first; the heat report lists the same paths sorted by time, with each caller's own time (total minus inner zones); times carry the right unit; writing a report always terminates.",
  "inputs", "all programs of nested zones up to the listed length x all listed time steps under a virtual clock", "A test can only run one program against a real clock and cannot know what the times should be.", [I + "Profiler.h", "bss-util/profiler.cpp"],
  [("trie of call paths keyed by point id", I + "Profiler.h"), ("report writers", "bss-util/profiler.cpp")], ENUM, QN + " Reports are written while no zone is open.")
P("D12", "System queries are answered truthfully; a Singleton knows its one instance",
  "bssFileSize returns the exact size of every regular file (empty, beyond 2 and 4 GB, through links) and the failure value for everything else (missing, directory, dangling link, pipe); GetFontPath returns exactly the path the font library reports, terminated and independent of the library's memory, or null when there is none, and releases what it opened; GetTimeZoneMinutes returns the local offset from UTC for every zone; after every history of creating, moving, assigning and destroying Singleton objects the instance is the newest object or the one its content was moved to, and null once that one is gone.",
  "inputs", "all listed kinds and sizes of files, all font library answers up to the listed path length, all half-hour zones, all histories of three objects", WHYQ, ["bss-util/bss_util.cpp", I + "bss_util_c.h", I + "os.h", I + "Singleton.h"],
  [("stat, fontconfig and localtime calls", "bss-util/bss_util.cpp"), ("instance pointer", I + "Singleton.h")], ENUM, QN + " The font library is a stand-in; the weight and slant arguments of GetFontPath are ignored on Linux and not judged. The registry, dialogs and memory counters are excluded.")
