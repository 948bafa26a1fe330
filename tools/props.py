# The properties, as data. gen.py writes properties.jsonl and MANIFEST.json.
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=a, technique=technique, level_note=note)
    if na:
        d['na'] = na
    PROPS.append(d)


NOTE = (' Exploration: holds on the executions observed, nothing more. Trusts the compiler, libc, the hand-written model and the '
        'seeded generator; runs the release build under an allocator that watches every block (canaries, quarantine, page guards, '
        'live-block accounting) and a build with assertions, AddressSanitizer and UndefinedBehaviorSanitizer.')

P('C01', 'vector, list and deque behave as an ideal sequence',
  'For every history of construction, insertion, erasure, resizing, assignment, swap, move and list operations (splice, merge, '
  'sort, unique, remove, reverse) on vector, list and deque, and for every element type that tolerates bitwise relocation, the '
  'size, order and values seen through every accessor and iterator equal those of an ideal sequence given the same operations. '
  'Every returned iterator designates the position the operation is about, the other container of a two-container operation ends '
  'with exactly the elements it should have, and elements do not move while a reservation still covers them. Passing a range or '
  'an element of the container itself is out of scope, except for push_back of an own element.',
  ['histories', 'inputs', 'programs'],
  'all operation histories, element types of any size (1 byte to structs, with and without destructors), sizes, positions and capacities',
  'test/vector, test/vect2, test/list run one short fixed history each on int and string; growth boundaries, odd element sizes and positions that select the unaligned byte-moving paths are never reached.',
  ['uvector.h', 'ulist.h', 'memblock.cc', 'memlink.h', 'ualgobase.cc', 'uctralgo.h'],
  [('hole insertion and erasure by rotating raw bytes', 'uvector.h insert_hole/erase, memblock.cc insert/erase'),
   ('raw move of the tail', 'ualgobase.cc rotate_fast, copy_backward_fast'),
   ('growth by reserve', 'memblock.cc reserve')],
  'model-based history monitor over randomised operation histories, with ASan/UBSan and guard-page heap',
  'Every operation of a random history is followed by a comparison of the entire container with an independent model.' + NOTE)

P('C02', 'Containers create, relocate and destroy every element exactly once',
  'Whatever history of operations is applied to vector, list, set, multiset, map, multimap, queue, stack and priority_queue, or to the '
  'raw-storage and rearranging algorithms, each element object that comes into existence is destroyed exactly once, and no object '
  'is copied, assigned, compared or destroyed before its construction or after its destruction. After each operation on a vector, list, set, map or '
  'stack the living elements are exactly those the container reports, and none is left when the container is gone.',
  ['histories', 'inputs', 'programs'],
  'all histories on containers of elements with non-trivial constructors and destructors whose constructors do not throw',
  'the tests print constructor calls of one small class in a few operations (test/vector); a doubled or missing destructor on another path changes no printed output.',
  ['uvector.h', 'umemory.h', 'uset.h', 'umap.h', 'uqueue.h', 'ustack.h', 'uheap.h', 'ualgo.h'],
  [('construction in and destruction of raw storage', 'umemory.h construct_at, destroy, uninitialized_*'),
   ('bitwise relocation instead of move construction', 'uvector.h insert_hole, memblock.cc')],
  'lifecycle monitor: every element carries an identity whose construction, use and destruction events are checked online',
  'Each element has an id in a registry; construct, copy, assign, compare and destroy events are checked against it and the live count against the container after every operation.' + NOTE)

P('C03', 'Valid use of any part of the library never touches memory it does not own',
  'Whatever valid calls are made, in any order and with any data, to the containers, strings, streams, algorithms, memory blocks, smart '
  'pointers, bitsets, matrices, exceptions and number utilities, the library never reads or writes outside the objects it was given or '
  'allocated, never uses memory after freeing it, never frees a block twice or a block it does not own, never lets a result depend on '
  'uninitialised memory, and executes no undefined arithmetic. Everything it allocates is freed by the time the objects involved are destroyed.',
  ['inputs', 'histories', 'programs'],
  'all valid API use over every module, in optimised and assertion-enabled builds',
  'the tests compare printed output only; an overread, an overflow into slack space or a leak prints nothing.',
  ['memblock.cc', 'ualgobase.cc', 'ustring.cc', 'sistream.cc', 'sostream.cc', 'mistream.cc', 'fstream.cc', 'ofstream.cc', 'uvector.h', 'simd.h', 'bktrace.cc', 'uexception.cc'],
  [('bounds tracking of every buffer', 'cmemlink.h, memblock.cc'), ('raw memory primitives in assembly', 'ualgobase.cc, simd.h'),
   ('stream bounds checks', 'mistream.h, mostream.h')],
  'ASan+UBSan, valgrind memcheck and a canary/guard-page heap over the workloads of all the other checks',
  'Runs the workloads of all modules under AddressSanitizer and UndefinedBehaviorSanitizer, under an allocator with canaries, page guards and leak accounting, and a reduced set under valgrind memcheck (uninitialised values and the accesses of inline assembly). Only memory reports count here.' + NOTE)

P('C04', 'Memory blocks hold exactly what was put in them and never edit borrowed data',
  'For every history of assign, copy, insert, erase, resize, reserve, shrink, manage, link, copy_link, swap, move, fill, serialization and file '
  'transfer on memory links and memory blocks, size and contents equal those of an ideal byte sequence, and a block reports at '
  'least the capacity it reserved. An owning block of bytes that is linked to foreign memory (also through vector and string) copies it before any '
  'operation that changes its size upwards, inserts or erases: the foreign bytes stay as they were and are never freed, while memory handed over with manage is freed exactly once.',
  ['histories', 'inputs'],
  'all histories of link, own and edit operations, all sizes and offsets',
  'test/memblok does one link, insert, erase and read each; whether the borrowed memory survived other histories, or a block is freed once, is not observed.',
  ['cmemlink.h', 'cmemlink.cc', 'memlink.h', 'memlink.cc', 'memblock.h', 'memblock.cc'],
  [('capacity zero means linked', 'memblock.h is_linked'), ('copy on write in reserve', 'memblock.cc reserve'), ('ownership transfer', 'memblock.cc manage, deallocate, unlink')],
  'model-based history monitor with protected foreign memory and an allocation-accounting heap',
  'Foreign memory is placed against inaccessible pages and, for operations that must not write it, made read-only; contents are compared with a model after each operation.' + NOTE,
  state=[('capacity', 'bytes owned; zero when the data is borrowed', 'memblock.h')])

P('C05', 'Strings edit as ideal byte strings and always end in NUL',
  'For every history of assignment, append, insertion, erasure, replacement, resizing, copying, substring, concatenation, move, swap, '
  'formatting and serialization on strings, size and bytes (including embedded NULs) equal those of an ideal byte string given the '
  'same operations, and returned iterators designate the edited position. Whenever the string owns its data, the byte after the last is NUL and c_str() is a valid '
  'C string; an edit of a string linked to a literal or foreign buffer never writes to that buffer.',
  ['histories', 'inputs'],
  'all histories of string operations with arguments of any length and offset; own substrings as arguments only for append and assign',
  'test/string and test/ustring check about a hundred fixed calls; sizes around capacity boundaries, embedded NULs and combinations are not reached.',
  ['ustring.h', 'ustring.cc', 'memblock.cc'],
  [('a free byte for the terminator', 'ustring.h minimumFreeCapacity'), ('replace, insert, append, assign', 'ustring.cc')],
  'model-based history monitor over randomised string histories, with ASan/UBSan and guard-page heap',
  'After every operation the entire string, its terminator and the touched arguments are compared with a model written over plain arrays.' + NOTE)

P('C06', 'String searches and comparisons give the defined answer for every text',
  'find, rfind, find_first_of, find_first_not_of, find_last_of, find_last_not_of, for characters, sets, C strings and strings from any '
  'starting offset, give the first or last position that matches, or npos when there is none (an empty pattern is never found, '
  'and rfind of a substring considers matches that lie entirely before the given offset or the end). compare and the relational operators order strings bytewise as unsigned '
  'characters with a proper prefix first, whatever the lengths, embedded NULs or kind of the other operand, and hash() of equal strings is equal.',
  ['inputs'],
  'all texts, patterns, characters and starting offsets',
  'the tests search one sentence for a few words from a few offsets.',
  ['ustring.h', 'ustring.cc'],
  [('search loops', 'ustring.cc find, rfind, find_first_of, find_last_of'), ('three-way comparison', 'ustring.cc compare')],
  'differential oracle: naive reference search and comparison on generated texts of small alphabets',
  'Texts of small alphabets make near-misses and overlaps frequent; every offset of short texts is tried.' + NOTE)

P('C07', 'UTF-8 is encoded, decoded, counted and iterated consistently for every character',
  'For every character value up to 0x7FFFFFFF, the encoder emits the canonical UTF-8 sequence of the stated length, and decoding any '
  'concatenation of such sequences gives back exactly those characters in order. Counting, sizing, the offset of the nth character '
  'and string construction, assignment and insertion of wide characters all agree with that encoding.',
  ['inputs'],
  'all code points 0..0x7FFFFFFF and all strings of them',
  'test/utf8 converts a few hundred characters below 0x10000 and prints them.',
  ['utf8.h', 'ustring.h', 'ustring.cc'],
  [('sequence length from the lead byte and the value', 'utf8.h Utf8SequenceBytes, Utf8Bytes'), ('in and out iterators', 'utf8.h utf8in_iterator, utf8out_iterator')],
  'differential oracle: independent encoder and decoder over all boundary values and generated strings',
  'All one- and two-byte and boundary values are enumerated, others sampled; the oracle is an independent codec.' + NOTE)

P('C08', 'set, multiset, map and multimap stay sorted and answer queries by their order',
  'After every history of insertion (single, hinted, range, list, emplace), erasure (by key, iterator, range), indexing, assignment, '
  'swap and move, the container iterates in the order of its comparison: set and map hold one element per equivalence class, the first inserted, '
  'and multiset and multimap hold all, equivalent ones in insertion order. Insertion results, find, lower_bound, upper_bound, '
  'equal_range, count, find_data and at give exactly the answers of an ideal sorted sequence under that comparison, also for comparisons under which unequal keys are equivalent.',
  ['histories', 'inputs', 'programs'],
  'all histories, key and mapped types, and strict weak orderings',
  'test/set, test/map, test/multimp insert a handful of keys in one order with the default comparison.',
  ['uset.h', 'umultiset.h', 'umap.h', 'umultimap.h', 'ualgo.h', 'upredalgo.h'],
  [('binary search by the comparison, insertion at the bound', 'uset.h insert, umap.h insert/operator[], umultimap.h insert')],
  'model-based history monitor against a sorted sequence under several orderings',
  'Every operation is followed by comparison with a linear-search model; orderings include reversed and many-to-one ones.' + NOTE)

P('C09', 'queue is FIFO, stack is LIFO, priority_queue always gives a greatest element',
  'For every history of push, emplace, pop, element assignment, copy, assignment, swap, move and construction from a container: queue gives its elements in the '
  'order they were pushed, each once, stack in the reverse order, and priority_queue always has on top an element that no other exceeds under its '
  'comparison, each pushed element coming out once. A copy gives the same elements as the original, a moved-from adaptor is empty, and equality of queues compares exactly the elements still inside.',
  ['histories', 'inputs', 'programs'],
  'all histories, element types, underlying containers and comparisons',
  'test/queue and test/prioqueue (heap) push and pop one short sequence.',
  ['uqueue.h', 'ustack.h', 'uheap.h'],
  [('front index and compaction', 'uqueue.h pop'), ('heap order', 'uheap.h push_heap, pop_heap, trickle_down_heap')],
  'ordering and conservation monitor over push/pop histories',
  'Each history is checked against an ideal queue, stack or multiset, and drained at the end.' + NOTE)

P('C10', 'Non-sorting algorithms produce exactly the defined result and touch nothing else',
  'For every input range, every algorithm that searches, counts, compares, copies, fills, generates, transforms, replaces, removes, '
  'reverses, rotates, swaps, partitions or accumulates (range form and whole-container form, with and without predicate) returns the value or iterator and leaves the contents '
  'that its definition gives, for empty, one-element and long ranges and for elements of every size. Elements outside the input and output ranges keep their values, stable algorithms keep relative order, and predicates see only elements of the range.',
  ['inputs', 'programs'],
  'all ranges (contents, lengths, alignments, element types) and predicates',
  'test/stralgo, test/algo apply each algorithm to one or two fixed arrays.',
  ['ualgo.h', 'ualgobase.h', 'upredalgo.h', 'unumeric.h', 'uctralgo.h', 'ulaalgo.h'],
  [('one loop per algorithm', 'ualgo.h, upredalgo.h, unumeric.h'), ('byte-copy specialisations', 'ualgobase.h copy, fill')],
  'differential oracle: naive definitions run beside the library on guarded arrays',
  'Each call is compared with a naive definition, and red zones around the arrays are checked.' + NOTE)

P('C11', 'Sorting, searching, heap, set, merge and permutation algorithms are correct',
  'sort, stable_sort, partial_sort, nth_element and the heap algorithms leave a permutation of the input that has the promised order under the given comparison '
  '(stable_sort, merge and inplace_merge keep equivalent elements in order), and lower_bound, upper_bound, equal_range and binary_search agree with '
  'a linear scan of the sorted range. includes and the set operations give the defined sorted multiset results with the right end iterator, and next_permutation and prev_permutation step through every permutation in '
  'lexicographic order, for all inputs including duplicates, sorted, reversed and empty ranges.',
  ['inputs', 'programs'],
  'all ranges, lengths and strict weak orderings',
  'the tests sort two short arrays and permute three elements.',
  ['ualgo.h', 'upredalgo.h', 'uheap.h', 'ualgobase.h'],
  [('sorting by the C library with a comparison adaptor', 'ualgo.h sort, qsort_adapter'), ('merge-based stable sort', 'ualgo.h stable_sort, inplace_merge'), ('set operations', 'ualgo.h, upredalgo.h')],
  'contract oracle (permutation, order, stability, linear-scan equivalence) on generated ranges',
  'Contracts are checked by multiset comparison, linear scans and tags that make every element distinct.' + NOTE)

P('C12', 'Binary serialization round-trips, occupies the announced size, and aligns',
  'For every serializable value (integers, floating point, bool, strings, memory blocks, vectors, lists, sets, maps, pairs, tuples, arrays, bitsets, matrices '
  'and nestings of them), writing it to a binary stream advances the position by exactly its stream_size, and reading those bytes back '
  'gives an equal value and consumes exactly the same bytes. Positions, remaining, alignment padding, skip, seek, raw read and write, and NUL-terminated strings '
  'on memory streams follow the bytes written in order, whatever the sequence of objects and alignments.',
  ['inputs', 'histories', 'programs'],
  'all values and sequences of serialized objects',
  'test/bvt streams and test/ios cover one sequence of values and check it prints the same.',
  ['mistream.h', 'mistream.cc', 'mostream.h', 'strmsize.h', 'uctrstrm.h', 'traits.h', 'ustring.cc', 'memblock.cc', 'cmemlink.cc'],
  [('size arithmetic separate from writing', 'strmsize.h, uctrstrm.h container_stream_size'), ('alignment', 'uctrstrm.h, mostream.h align')],
  'round-trip and conservation oracle (bytes written = announced = consumed) on generated object sequences',
  'Every object is written between canaries in an exactly sized buffer, its size announced beforehand, then read back.' + NOTE)

P('C13', 'Damaged or truncated binary input never harms the reader',
  'Reading any byte sequence, truncated, corrupted or random, as any serializable type from a memory stream never reads outside the '
  'stream, never allocates more than a small multiple of the input size, never crashes or loops, and leaves a value that can be used and destroyed. '
  'If the data runs out the failure is reported through the stream state or, where enabled, an exception, and the position never passes the end.',
  ['inputs', 'fault_sequences'],
  'all byte sequences and truncation points, all element types',
  'the tests read back only what they wrote, plus two bounds violations.',
  ['mistream.h', 'mistream.cc', 'uctrstrm.h', 'ustring.cc', 'memblock.cc', 'ubitset.h', 'bktrace.cc'],
  [('remaining-bytes verification before every read', 'mistream.h verify_remaining, uctrstrm.h'), ('overrun reporting', 'mistream.cc')],
  'mutation-based hostile-input workload under guard pages, sanitizers and allocation accounting',
  'Valid encodings are truncated at every byte, mutated and replaced by noise; the input ends at an inaccessible page and allocation is accounted.' + NOTE)

P('C14', 'Text output is exactly what the flags, width, precision and value define',
  'For every value and every combination of base, width, precision, zero or space fill, and floating-point notation set through flags or manipulators, the text a string stream '
  'produces for integers, floating point, characters, strings, booleans, pointers, ranges and formatted output, and the result of to_string, equals the C library rendering of the same request. '
  'Output is appended without gaps, overwriting or truncation in growing strings at any starting length, and a stream over a fixed buffer never writes past it: text that does not fit is kept in the own memory of the stream, or cut at the end of the buffer with the failure state set.',
  ['inputs', 'configurations', 'histories'],
  'all values, all format settings, all sequences of insertions',
  'test/sostream and test/format print some tens of values with three or four settings.',
  ['sostream.h', 'sostream.cc', 'uios.h', 'uiosfunc.h', 'ustring.cc', 'uspecial.h'],
  [('format string assembled from flags', 'sostream.cc fmtstring, iformat'), ('growth on overflow', 'sostream.cc overflow, link')],
  'differential oracle: the C library rendering of each request, over sequences of insertions',
  'Each inserted value is also rendered by snprintf with the equivalent format, and the whole buffer compared after each step.' + NOTE)

P('C15', 'Text input parses words, numbers, lines and characters exactly once and in order',
  'For every text, extracting integers (decimal, octal and hexadecimal), floating point numbers, booleans, characters, words, quoted and escaped strings, lines and raw blocks with a '
  'string stream gives the tokens a left-to-right parse of the same text gives, and leaves the position right after the consumed text, so that every byte is '
  'consumed once. Line reading splits at the delimiter and keeps everything else, ignore and unget move by exactly what they report, no read goes beyond the text, which need not be NUL-terminated, and stoi, stol, stod and their kin parse like the C library.',
  ['inputs', 'histories'],
  'all texts and sequences of extractions; stream state after the last byte has been consumed is not specified',
  'test/sistream parses one fixed text.',
  ['sistream.h', 'sistream.cc'],
  [('token scanner', 'sistream.cc skip_delimiters, read_number'), ('string reader', 'sistream.cc read (string&)')],
  'differential oracle: an independent left-to-right parser over generated texts and extraction sequences',
  'Generated texts with known tokens and raw random texts end at an inaccessible page; extracted tokens and positions are compared after each step.' + NOTE)

P('C16', 'File streams transfer exactly the bytes asked, whatever system calls return',
  'Whatever pattern of short transfers, interruptions and errors the system calls show, an output file stream delivers the bytes inserted into it '
  'once, in order and completely to the file, or reports the failure in its state; an input file stream delivers the bytes of the file once and in order up to its end. '
  'Direct file reads, writes, seeks, positions, sizes, file copies and whole-file block transfers see exactly those bytes, errors are reported as the documented '
  'state or exception with the failing file and operation, and every descriptor opened is closed exactly once. Offsets and sizes beyond 4 GB are handled alike; '
  'the standard streams use descriptors 0 to 2 without closing them, and what was written to cout is out before cin waits for input.',
  ['inputs', 'fault_sequences', 'histories'],
  'all contents, chunk sizes, short-transfer, EINTR and error patterns',
  'test/fstream and test/ofstrm write and read one small file where every system call succeeds at full length.',
  ['fstream.h', 'fstream.cc', 'ofstream.h', 'ofstream.cc', 'memblock.cc', 'cmemlink.cc'],
  [('retry loops', 'fstream.cc read, write, close'), ('buffer refill and flush', 'ofstream.cc underflow, overflow, flush'), ('state to exception', 'fstream.cc, uios.h set_and_throw')],
  'fault-injecting system-call layer with conservation monitor over file contents and descriptors',
  'read, write, open, close, lseek and fsync are interposed to shorten, interrupt and fail by schedule; bytes, states and descriptors are compared with a model.' + NOTE)

P('C17', 'Smart pointers and scope guards release every object once and not early',
  'For every history of construction, copy, move, assignment (also to itself), reset, release, swap and destruction of auto_ptr, unique_ptr (object and array) '
  'and shared_ptr, each managed object stays alive as long as some owner holds it and is destroyed exactly once when the last one lets go, released pointers excepted. '
  'get, dereference, use_count, unique, comparison and truth value always reflect the current ownership, and a scope guard runs its action exactly once at scope exit unless dismissed, also when the scope is left by an exception or the guard was moved.',
  ['histories', 'programs'],
  'all ownership histories over several pointers',
  'test/smrtptr does one short history per pointer class.',
  ['umemory.h', 'uutility.h'],
  [('reference count in a separate block', 'umemory.h shared_ptr'), ('ownership transfer', 'umemory.h auto_ptr, unique_ptr'), ('guard', 'umemory.h, uutility.h scope_exit')],
  'ownership monitor: object births, deaths and holders tracked over randomised ownership histories',
  'A registry of objects and a model of holders is compared after each operation.' + NOTE)

P('C18', 'Atomics, shared_ptr counts and separate objects are right in every interleaving',
  'Concurrent atomic loads, stores, exchanges, compare-exchanges and arithmetic or bitwise updates on one variable behave as if executed one at a time, each returning the value '
  'its own position in that order gives, so that no update is lost and no result is seen twice; compare-exchange succeeds only on the expected value and otherwise '
  'reports the actual one. A test-and-set flag admits one holder at a time and makes the previous holder\'s writes visible; copies of a shared_ptr used by different threads free the object exactly once, after all of its uses. '
  'Threads that work on objects of their own (containers, strings, streams, files, exceptions, algorithms) get the results each would get alone, '
  'and so do threads that only read an object they share through its const members.',
  ['schedules', 'histories'],
  'all interleavings of any number of threads',
  'test/atomic runs in one thread.',
  ['uatomic.h', 'uutility.h', 'umemory.h'],
  [('compiler atomics', 'uatomic.h'), ('test and set', 'uutility.h TestAndSet'), ('atomic count', 'umemory.h shared_ptr')],
  'ThreadSanitizer, conservation checks and linearizability of recorded concurrent histories',
  'Threads run short contended bursts with random delays; results are checked for conservation, uniqueness and linearizability, and a ThreadSanitizer build checks for races.' + NOTE)

P('C19', 'A failed allocation is reported and leaves every object intact and leak-free',
  'If any single allocation fails during an operation on a memory block, string, container or stream buffer, the operation either completes '
  'with its normal result or throws bad_alloc; in the latter case the object it was applied to is still valid: it can be read, edited and destroyed, every element in it is '
  'intact (a single append, push, insert, reserve, or assignment to raw blocks and strings that throws leaves the contents unchanged), and no memory is leaked or corrupted. Later operations succeed once memory is available again.',
  ['fault_sequences', 'histories'],
  'every allocation of every operation in every history as the point of failure; elements whose construction does not itself allocate',
  'no test makes an allocation fail.',
  ['memblock.cc', 'unew.cc', 'uvector.h', 'ustring.cc', 'uexception.cc'],
  [('allocation before modification', 'memblock.cc reserve'), ('bad_alloc', 'unew.cc, memblock.cc')],
  'systematic allocation-failure injection with before/after state comparison',
  'Each operation is replayed with its first, second, ... allocation failing until none fails; state, leaks and later use are checked.' + NOTE)

P('C20', 'Raw copy, fill and rotate move exactly the bytes asked at any size and alignment',
  'For every size, alignment and distance, the raw memory operations behind copy, copy_n, copy_backward, fill, fill_n (1-, 2- and 4-byte '
  'patterns), rotate, block insert and block erase produce exactly the bytes of their definition and touch no byte outside the destination, '
  'also when ranges overlap in the direction the operation allows. They leave the processor as they found it: string direction forward, floating-point stack usable.',
  ['inputs'],
  'all sizes 0..several KB (and larger samples), all alignments mod 64, overlap distances and fill values',
  'the tests copy arrays of a few fixed sizes at the alignments malloc happens to give.',
  ['ualgobase.h', 'ualgobase.cc', 'ualgo.h', 'memlink.h', 'memlink.cc'],
  [('assembly string moves and SIMD blocks with head and tail', 'ualgobase.cc copy_n_fast, copy_backward_fast, fill_n_fast'), ('rotation through a stack buffer', 'ualgobase.cc rotate_fast')],
  'exhaustive small sizes and alignments between guard pages, against naive byte loops, with processor-state probes',
  'Sizes and alignments are enumerated for small sizes and sampled for large ones; source and destination touch inaccessible pages.' + NOTE)

P('C21', 'bitset behaves as an array of independent bits',
  'For every history of set, reset, flip (single bits, ranges and the whole set), assignment, logical operators, conversion from and to strings and integers and serialization '
  'on bitsets, each bit has the value an array of booleans would have, and no operation changes a bit it does not address. '
  'Whole-set queries (any, none, count, equality, to_string, complement) agree with that array for sizes that are multiples of 32.',
  ['histories', 'inputs', 'programs'],
  'all bitset sizes, bit indexes and histories',
  'test/bitset exercises one 7-bit and one 64-bit set a few times.',
  ['ubitset.h', 'ubitset.cc'],
  [('word index and bit mask', 'ubitset.h'), ('string conversion', 'ubitset.cc')],
  'model-based history monitor against a boolean array',
  'All sizes of interest are instantiated; every bit is compared after every operation.' + NOTE)

P('C22', 'tuple, array, pair, matrix and packed operations act like scalar elementwise',
  'For every element type and size, tuples, arrays, pairs and the packed (SIMD) operations they use give for each element the result of the scalar operation '
  'on the corresponding elements (arithmetic, bitwise, minimum, maximum, average, saturating, comparison, conversion and rounding), leaving operands alone '
  'unless they are the destination. Matrix multiplication, transformation, transposition, row and column access, identity and scaling equal their textbook definition, and floating-point code used afterwards is unaffected.',
  ['inputs', 'programs'],
  'all element values, element types and dimensions',
  'test/simd, test/tuple, test/matrix use one set of small values.',
  ['simd.h', 'utuple.h', 'uarray.h', 'upair.h', 'umatrix.h', 'ulaalgo.h'],
  [('packed operators with assembly specialisations', 'simd.h'), ('element loops', 'utuple.h, umatrix.h, ulaalgo.h')],
  'differential oracle: scalar loops beside the packed and elementwise operations',
  'Values include extremes and wrap-around; each operation is compared with scalar code and red zones are checked.' + NOTE)

P('C23', 'Number, bit, time and ratio utilities equal their mathematical definition',
  'For every argument in range, absolute value, sign, minimum, maximum, alignment, rounding division, powers of two, bit scans and counts, rotation, byte swapping, '
  'gcd, lcm of non-negative numbers, packing, pointer and distance helpers and byte-order conversions give the mathematical result, and numeric limits are the range and signedness of the type. Ratios reduce and combine exactly, and durations and time points convert, add, subtract, scale and compare '
  'exactly (truncating towards zero where the target unit is coarser), and high-resolution times carry between seconds and nanoseconds, for all non-negative values that fit.',
  ['inputs', 'programs'],
  'all values in the stated ranges, all unit pairs',
  'the tests call each helper with one or two values.',
  ['uutility.h', 'uchrono.h', 'uratio.h', 'unumeric.h', 'ulimits.h', 'ualgobase.h'],
  [('branch-free arithmetic and builtins', 'uutility.h'), ('compile-time ratios', 'uratio.h'), ('duration_cast', 'uchrono.h')],
  'differential oracle in wide arithmetic over boundary and random values',
  'Results are compared with 128-bit or bitwise reference computations.' + NOTE)

P('C24', 'Exceptions describe their failure faithfully, and copy, print and round-trip',
  'Every exception the library throws carries the operation, file, type, sizes and error code of the failure that caused it, its info text and text output contain them, '
  'and what() names its type. Copies and assignments of exceptions and backtraces are independent and equal to the original, writing one to a stream and reading it back gives the same information, '
  'and long or unusual names, file names and messages are neither truncated into garbage nor overrun. Error codes and conditions compare, convert and describe themselves consistently, and type descriptions are equal, ordered and named by type alone.',
  ['inputs', 'histories'],
  'all failures, names, messages, codes and exception types',
  'test/except throws three or four exceptions and prints them.',
  ['uexception.h', 'uexception.cc', 'ustdxept.h', 'ustdxept.cc', 'bktrace.h', 'bktrace.cc', 'uerror.h'],
  [('message formatting', 'ustdxept.cc info, msgf'), ('serialization', 'uexception.cc read/write'), ('symbol storage', 'bktrace.cc')],
  'content oracle on info texts, round-trip and copy independence on generated exceptions',
  'Exceptions are built from generated data and provoked by real failures; their text and copies are compared with what was put in.' + NOTE)

P('C25', 'Iterator adaptors, stream iterators and function objects do what they stand for',
  'Reverse, move, index, insert, front-insert and back-insert iterators and stream iterators, alone and combined with algorithms, visit, read and write the same elements in the same order as '
  'the hand-written loop they replace, with arithmetic, difference and comparison consistent with the positions. Function objects, binders, negators, compositions, member-function '
  'and pointer adaptors return exactly the value of the operation they wrap for all arguments.',
  ['inputs', 'programs'],
  'all containers, positions and arguments',
  'test/itertr and test/cmplalg use each adaptor once.',
  ['uiterator.h', 'ufunction.h', 'mistream.h', 'mostream.h'],
  [('adaptor classes', 'uiterator.h'), ('function objects', 'ufunction.h')],
  'differential oracle: plain loops and expressions beside the adaptors',
  'Every adaptor operation is compared with index arithmetic and plain expressions on generated data.' + NOTE)

P('C26', 'Type traits and type lists answer as the language defines',
  'For every type, the type traits (categories, properties, relations and transformations) and type-list operations yield the answer the language definition gives.',
  ['programs'],
  'all types',
  'the tests print a few traits of a few types.',
  ['uttraits.h', 'typet.h', 'typelist.h', 'traits.h'],
  [('template specialisation', 'uttraits.h, typet.h, typelist.h')],
  'none', 'none',
  na='The answers are fixed when the program is compiled; there is no execution whose events a monitor could observe. A compile-time assertion suite would decide it, which is not this family of technique.')
