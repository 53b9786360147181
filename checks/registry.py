"""What each check builds and runs, and how it is described."""

TRUST = ("Generated cases only: a violation that needs a case outside the generated space is missed. Trusts g++ 13, "
         "AddressSanitizer/UBSan and the reference model in the harness.")

WRAP = ["-Wl,--wrap=" + f for f in ("open", "open64", "close", "write", "pwrite", "pwrite64", "writev", "read", "ftruncate", "ftruncate64", "fsync", "fdatasync")]

CHECKS = {
    "P01": {
        "technique": "model-based stateful property testing against sorted vectors, coverage-guided, ASan/UBSan, counted element lifetimes",
        "note": "Histories of up to about 100 operations over several sets and element types, compared with a sorted model after every operation. " + TRUST,
        "rule": "A case is a history of operations on up to four sets (insert, emplace, erase, lookups, copies, moves, swaps, throwing element constructions), "
                "drawn from a seeded choice sequence and mutated under branch coverage; non-trivial: some set reached three elements and something was erased.",
        "variants": [{"name": "vs", "sources": ["vector_set.cpp"]}],
    },
    "P02": {
        "technique": "property testing with a counting comparator against a 4*log2(N+1)+2 bound, adversarial removal orders",
        "note": "Counts comparisons per operation under orders chosen at random and against the tree's shape. The known finding KF-P02-remove-imbalance concerns removals only: histories "
                "in which the height after removals is explained by it are held to the bound for the largest number of elements ever present. " + TRUST,
        "rule": "A case is an order of insertions and removals (ascending, descending, zigzag, random, clustered, or aimed at the deepest/shallowest elements); "
                "non-trivial: at least 16 elements and, in the targets with removals, something was removed.",
        "variants": [{"name": "cost", "sources": ["vector_set_cost.cpp"]}],
    },
    "P03": {
        "technique": "model-based stateful property testing against a bounded deque, coverage-guided, ASan/UBSan, counted element lifetimes",
        "note": "Histories over several rings with throwing, counted elements, compared with a deque after every operation. " + TRUST,
        "rule": "A case is a history over several rings of drawn capacities; non-trivial: an element was overwritten in a full ring and the contents wrapped around.",
        "variants": [{"name": "ring", "sources": ["ring.cpp"]}],
    },
    "P05": {
        "technique": "model-based stateful property testing of intrusive lists against vectors of pointers, coverage-guided, ASan/UBSan",
        "note": "Histories over several lists sharing elements that have several links, compared after every operation in both directions. " + TRUST,
        "rule": "A case is a history over several double and single linked lists; non-trivial: an element left from the middle of a list and there was a splice or a move of a list.",
        "variants": [{"name": "lists", "sources": ["lists.cpp"]}],
    },
    "P06": {
        "technique": "model-based stateful property testing of notifications, with generated re-entrant callbacks, coverage-guided, ASan/UBSan",
        "note": "The callbacks themselves run generated actions on observers and observables; every call is checked against the model's expected sequence. " + TRUST,
        "rule": "A case is a history of subscriptions, moves, destructions and nested notifications; non-trivial: an observer left during a notification and something was moved.",
        "variants": [{"name": "observable", "sources": ["observable.cpp"]}],
    },
    "P07": {
        "technique": "model-based stateful property testing of observable, mirror and foreign sets against maps, coverage-guided, ASan/UBSan",
        "note": "Four ways to store the elements, a replaying subscriber, mirror and foreign sets compared with the model after every operation. " + TRUST,
        "rule": "A case is a history over a set with subscribers and derived sets; non-trivial: something was removed and a set was moved, copied or assigned.",
        "variants": [{"name": "sets", "sources": ["observable_set.cpp"]}],
    },
    "P08": {
        "technique": "property testing of enum/name conversions and bitmaps against sets of numbers, differential and round-trip oracles, ASan/UBSan",
        "note": "Enums of 1 to 255 values, names altered at random, bitmaps of 3 to 255 bits against std::set, ranges of every integer type against a plain loop. " + TRUST,
        "rule": "A case draws indices, names near to real ones, sets of flags with operators, or pairs of bounds; non-trivial: conversions were tried with both kinds of input, "
                "a bitmap was neither nearly empty nor full, a declaration had several members, a range was not empty.",
        "variants": [{"name": "enums", "sources": ["enum_bitmap.cpp"]}],
    },
    "P09": {
        "technique": "property testing of parsing and printing decimals against digit strings: round trip, grammar oracle, exact-sized buffers under ASan",
        "note": "Seventeen instances of the template (32 to 512 bit, nine of them over boost::multiprecision), char and wchar_t, texts around every limit. " + TRUST,
        "rule": "A case draws values and texts (long rows of zeros, around the mantissa and digit limits, with a wrong character); non-trivial: a text with non-zero digits was parsed and printed.",
        "variants": [{"name": "text", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=1"]},
                     {"name": "multiprecision_text", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=1", "-DAWL_BOOST", "-I@REPO@/Extras/Boost"]}],
    },
    "P10": {
        "technique": "differential property testing of decimal arithmetic and comparison against schoolbook arithmetic on digit strings",
        "note": "Operands drawn near the limits and near each other (same value at another scale, one unit apart, opposite sign). " + TRUST,
        "rule": "A case draws pairs of values and a chain of sums; non-trivial: a pair of non-zero values with different numbers of fractional digits.",
        "variants": [{"name": "arith", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=2"]},
                     {"name": "multiprecision_arith", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=2", "-DAWL_BOOST", "-I@REPO@/Extras/Boost"]}],
    },
    "P11": {
        "technique": "differential property testing of rescaling, rounding and conversions of decimals against digit strings and long double",
        "note": "Integer conversions are compared exactly, those through floating point within a few units in the last place. " + TRUST,
        "rule": "A case draws values, numbers of digits, integers and floats; non-trivial: a value was extended or trimmed.",
        "variants": [{"name": "scale", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=3"]},
                     {"name": "multiprecision_scale", "sources": ["decimal.cpp"], "std": "gnu++20", "flags": ["-DPART=3", "-DAWL_BOOST", "-I@REPO@/Extras/Boost"]}],
    },
    "P12": {
        "technique": "round-trip property testing over 70 types, with an independent reference encoder of the format",
        "note": "Bytes are compared with an encoder written from the format alone, through five kinds of output and four kinds of input. " + TRUST,
        "rule": "A case draws a type and values of it; non-trivial: more than one byte was written.",
        "variants": [{"name": "format", "sources": ["serialization.cpp"], "flags": ["-DPART=1"]}],
    },
    "P13": {
        "technique": "fuzzing of the readers of 70 types with truncated and garbled encodings, and of version tolerant readers with documents whose metadata lie; ASan/UBSan, bounded allocations",
        "note": "An allocation of more than 4 MB made while reading counts as a lack of memory, which is an exception. " + TRUST,
        "rule": "A case draws a type, a value and changes of its bytes; non-trivial: a value of more than nine bytes was truncated, a string was longer than the limit, or a document of more than 600 bytes was changed.",
        "variants": [{"name": "garbled", "sources": ["serialization.cpp"], "flags": ["-DPART=2"]},
                     {"name": "documents", "sources": ["vts_garbage.cpp"], "std": "gnu++20", "lib": False}],
    },
    "P14": {
        "technique": "differential property testing of schema evolution over random versions of nested structures, fault injection in the streams",
        "note": "Seven versions of a family of structures (random subsets and orders of 35 fields, renames, clashes) are read as each other and compared with a migration of the value "
                "as a tree. Types that share a name in the format while they are encoded in different ways are the subject of a known finding. " + TRUST,
        "rule": "A case draws two versions, their type tables and values; non-trivial: fields were both removed and added, a stream broke in the second half, or other ways to read were compared.",
        "variants": [{"name": "evolve", "sources": ["vts.cpp"] + ["vts_version.cpp -DVERSION_NO=%d" % k for k in range(8)], "std": "gnu++20"}],
    },
    "P15": {
        "technique": "round-trip and fault-injection property testing of hash streams against blocks built by a bitwise reference CRC",
        "note": "Block sizes from one byte of data to 64 KB, any pattern of writes and reads, flips, bursts, truncations, outputs that fail. Blocks swapped or removed as a whole are "
                "not detected by the format and not claimed. " + TRUST,
        "rule": "A case draws a block size, data and its chunks or a damage; non-trivial: there was more than one block, or the output failed.",
        "variants": [{"name": "hash", "sources": ["hash_stream.cpp"], "std": "gnu++20", "flags": ["-DPART=1"]}],
    },
    "P16": {
        "technique": "property testing of the header gate with drawn formats, versions and limits, and damaged documents",
        "note": "Every combination of equal, older, newer, foreign and over-long headers, with and without support of old versions, written directly or as a snapshot. " + TRUST,
        "rule": "A case draws two headers, limits and a document; non-trivial: the document has more than 60 bytes.",
        "variants": [{"name": "header", "sources": ["hash_stream.cpp"], "std": "gnu++20", "flags": ["-DPART=2"]}],
    },
    "P17": {
        "technique": "fault injection and crash-point enumeration over generated histories of saves, through intercepted system calls",
        "note": "Writes, truncations and syncs of the two files are recorded and replayed up to every point of the last save and up to random points before it: what was not synced may be lost, reordered or torn. Write, truncate, sync and read errors are injected at drawn calls, repeatedly or once. Data that was synced is trusted to stay. " + TRUST,
        "rule": "A case is a history of saves (plain or under a mutex), loads, faults and crashes over one pair of files, followed by every crash point of one more save; non-trivial: there was a fault or a crash before that.",
        "variants": [{"name": "crash", "sources": ["storage.cpp"], "std": "gnu++20", "flags": ["-DPART=1"], "libs": WRAP}],
    },
    "P18": {
        "technique": "stateful model-based property testing of persistent objects over damaged files and injected errors",
        "note": "Two objects over five names (three of which cannot be opened), files removed, cut, extended, altered and swapped between the calls, documents of other formats and versions; files and objects are compared with the model after every call. " + TRUST,
        "rule": "A case is a history of 4 to 28 calls and damages; non-trivial: at least two of them were a recovery from the backup, a refused document or a fault.",
        "variants": [{"name": "tolerance", "sources": ["storage.cpp"], "std": "gnu++20", "flags": ["-DPART=2"], "libs": WRAP}],
    },
    "P19": {
        "technique": "stateful model-based property testing of files against byte vectors, with short and failing system calls injected",
        "note": "Native streams, the streams over them and the sequential adapters against a vector with a position; short reads and writes and errors are injected in the system calls. " + TRUST,
        "rule": "A case is a history of reads, writes, seeks, truncations and moves of handles; non-trivial: data was read back after the file had been cut, or over 100 bytes went through an adapter.",
        "variants": [{"name": "streams", "sources": ["storage.cpp"], "std": "gnu++20", "flags": ["-DPART=3"], "libs": WRAP}],
    },
    "P20": {
        "technique": "property testing of comparators against reference orders on all pairs of generated structures, differential lookup in ordered sets, hash/equality consistency",
        "note": "Records with many equal fields, every pair compared in both directions; composite, transparent, key, reverse and pointer comparators; memberwise operators and hashes. " + TRUST,
        "rule": "A case draws a group of records that share many field values; non-trivial: more than four records, or hashes over two varying fields.",
        "variants": [{"name": "order", "sources": ["compare.cpp"], "flags": ["-DPART=1"], "lib": False}],
    },
    "P21": {
        "technique": "differential property testing of checksums and hashes against bit-by-bit references",
        "note": "CRC-64 over every kind of iterator and element width against the definition; integers to bytes and back; hashes of strings between the forms of a string; the OpenSSL hashes against the general interface of that library. " + TRUST,
        "rule": "A case draws bytes, a seed and a cut, or strings; non-trivial: the data has more than eight bytes, or the string more than two characters.",
        "variants": [{"name": "sums", "sources": ["compare.cpp"], "flags": ["-DPART=2"], "lib": False},
                     {"name": "openssl", "sources": ["openssl_hash.cpp"], "lib": False, "libs": ["-lcrypto"]}],
    },
    "P22": {
        "technique": "model-based stateful property testing of the queue with generated self-pushing updates; randomized multithreaded histories under ThreadSanitizer and AddressSanitizer",
        "note": "Single-threaded histories are exact; schedules are drawn at every operation on a mutex, and ThreadSanitizer watches real threads. " + TRUST,
        "rule": "A case is a history of pushes (of updates that push, clear or throw), clears and applications, or up to four pushing threads and one applying; non-trivial: more than five updates applied "
                "and some pushed by others, or several concurrent rounds applied something.",
        "variants": [{"name": "model", "sources": ["utils.cpp"], "flags": ["-DPART=1"], "lib": False},
                     {"name": "threads", "sources": ["utils.cpp"], "flags": ["-DPART=1", "-DTHREADS_ONLY"], "lib": False, "san": "tsan"},
                     {"name": "schedules", "sources": ["queue_schedules.cpp"], "lib": False}],
    },
    "P23": {
        "technique": "model-based stateful property testing of object pools with counted objects and generated re-entrant finalizers, ASan/UBSan",
        "note": "One thread: the pool is not synchronized. " + TRUST,
        "rule": "A case is a history of make, add, release, copy, hold and clear over one or two pools; non-trivial: more than two objects were reused and more than three released.",
        "variants": [{"name": "pool", "sources": ["utils.cpp"], "flags": ["-DPART=2"], "lib": False}],
    },
    "P24": {
        "technique": "model-based stateful property testing of guards, owning pointers and aggregators with counted lifetimes and injected exceptions, ASan/UBSan",
        "note": "What an aggregator does after its only call is left open. " + TRUST,
        "rule": "A case is a history of guards (made, moved, assigned, released, ended), of pointers, or of set() calls; non-trivial: several actions were run and guards moved, or more than a handful of operations.",
        "variants": [{"name": "guards", "sources": ["utils.cpp"], "flags": ["-DPART=3"], "lib": False}],
    },
    "P25": {
        "technique": "generated coroutine programs executed in generated orders of events against their plain evaluation, coverage-guided, ASan/UBSan, counted frame locals",
        "note": "One thread, as the coroutine types are not synchronized. " + TRUST,
        "rule": "A case is a tree of up to 60 coroutines (tasks with a value, void tasks, update tasks, generators, async generators) and an order of events, with tasks dropped, released, moved and cancelled; "
                "non-trivial: more than three events and nested coroutines, or more than three elements; up to four async generators with their consumers run at once.",
        "variants": [{"name": "coro", "sources": ["coro.cpp"], "std": "gnu++20", "lib": False}],
    },
    "P26": {
        "technique": "model-based stateful property testing of generated histories of threads under drawn, replayable and shrinkable schedules (doubles of the standard primitives), and the same histories with real threads under ThreadSanitizer",
        "note": "Schedules are drawn at every operation on a mutex, a condition variable, an atomic or a thread, with virtual time, under sequential consistency; weaker memory orders are covered by the ThreadSanitizer runs only. " + TRUST,
        "rule": "A case is up to four programs of copies, moves, requests and re-entrant callbacks, and a schedule; non-trivial: callbacks were called and more than two were made.",
        "variants": [{"name": "schedules", "sources": ["jthread.cpp"], "flags": ["-DPART=1", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False},
                     {"name": "threads", "sources": ["jthread.cpp"], "flags": ["-DPART=1", "-DREAL_THREADS", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False, "san": "tsan"}],
    },
    "P27": {
        "technique": "generated programs of waiting, notifying, stopping and joining threads under drawn, replayable and shrinkable schedules with virtual time (a lost wakeup is a deadlock or a wait till the end of time), and with real threads under ThreadSanitizer",
        "note": "Schedules are drawn at every operation on a mutex, a condition variable, an atomic or a thread, with virtual time, under sequential consistency; weaker memory orders are covered by the ThreadSanitizer runs only. " + TRUST,
        "rule": "A case is a set of waits of all kinds with their notifications and stops, or a history of jthread objects, and a schedule; non-trivial: a wait was blocked while others compete, or more than one thread was joined and moved.",
        "variants": [{"name": "schedules", "sources": ["jthread.cpp"], "flags": ["-DPART=2", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False},
                     {"name": "threads", "sources": ["jthread.cpp"], "flags": ["-DPART=2", "-DREAL_THREADS", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False, "san": "tsan"}],
    },
    "P28": {
        "technique": "generated sleepers, watch dogs and requests under drawn, replayable and shrinkable schedules with virtual time, and with real threads under ThreadSanitizer",
        "note": "Schedules are drawn at every operation on a mutex, a condition variable, an atomic or a thread, with virtual time, under sequential consistency; weaker memory orders are covered by the ThreadSanitizer runs only. " + TRUST,
        "rule": "A case is a set of sleeps or watch dogs with requests to stop them, and a schedule; non-trivial: someone was interrupted while others sleep, or a dog barked or was cancelled.",
        "variants": [{"name": "schedules", "sources": ["jthread.cpp"], "flags": ["-DPART=3", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False},
                     {"name": "threads", "sources": ["jthread.cpp"], "flags": ["-DPART=3", "-DREAL_THREADS", "-I@REPO@/Extras/JThread"], "std": "c++17", "lib": False, "san": "tsan"}],
    },
    "P29": {
        "technique": "generated sets of tests and command lines run through the framework and compared with a model of the selection, the runs, the attributes and the output; generated conditions and values for assertions and formatters",
        "note": "The text of the output is compared line by line except for the elapsed times and the messages of failures. " + TRUST,
        "rule": "A case is a set of tests with a command line; non-trivial: at least two runs of tests happened and at least two options were given (assertions and formatters: every case).",
        "variants": [{"name": "framework", "sources": ["testing.cpp"], "std": "gnu++20", "testing": True}],
    },
    "P30": {
        "technique": "generated coroutine programs over time queues, and generated histories of stop watches, with a virtual clock and sleep under the control of the generator, against bounds on every time; round trip of durations and local times against a model of the calendar",
        "note": "std::chrono::steady_clock and std::this_thread are replaced by doubles while the headers are compiled; local times are computed for POSIX time zone rules of the generator. " + TRUST,
        "rule": "A case is a set of coroutines with waits in up to three queues, a history of a stop watch, a duration, or a local time; non-trivial: a coroutine overtakes one that began to wait earlier, more than two readings, a duration with a fraction.",
        "variants": [{"name": "timers", "sources": ["timers.cpp"], "std": "gnu++20", "lib": False}],
    },
    "P31": {
        "technique": "generated C++ types, written at build time by a seeded generator together with what the rules say about each, compiled against the library and compared",
        "note": "The rules of the names and lists are restated in the generator from the static assertions of the headers; types come from a grammar over what the serializer supports. " + TRUST,
        "rule": "A case is a pair of generated types; non-trivial: the type is composed of more than two. The number of different types is 640 in the quick tier and 4000 in the thorough one, and depends on the seed.",
        "variants": [{"name": "types", "sources": ["types.cpp -DPART=%d" % i for i in range(9)], "std": "gnu++20", "lib": False, "gen": "gen_types.py", "guided": False}],
    },
    "P32": {
        "technique": "property-based testing of the small helpers against independent reference implementations and algebraic laws, ASan/UBSan",
        "note": "Case-insensitive comparison of bytes above 127 is only required to be a strict weak order. " + TRUST,
        "rule": "A case is a set of arguments, or a history of registrations and lookups or of owners of a singleton; non-trivial: stated per target (a fraction to round, differing strings, found and missing names...).",
        "variants": [{"name": "helpers", "sources": ["helpers.cpp -DPART=%d" % i for i in range(5)], "std": "gnu++20", "lib": False}],
    },
    "P33": {
        "technique": "round-trip property testing and fuzzing of readers against an encoder written from the format, and a model of bit fields, ASan/UBSan",
        "note": "Eight widths and signs of integers, six instances of the bit fields; boost itself is trusted for arithmetic. " + TRUST,
        "rule": "A case is a number, a row of bytes, a few containers or a history of setting parts; non-trivial: more than 8 bytes, a complete number in garbage, two elements, or a long mantissa with both other parts set.",
        "variants": [{"name": "multiprecision", "sources": ["multiprecision.cpp"], "std": "gnu++20", "flags": ["-DAWL_BOOST", "-I@REPO@/Extras/Boost"]}],
    },
    "P34": {
        "technique": "generated C++ structures, written at build time by a seeded generator together with what must be true about their members, compiled against the library; generated pairs of values against a lexicographic model, ASan/UBSan",
        "note": "Ten types of members besides nested structures, depth up to five. " + TRUST,
        "rule": "A case is a structure, or a pair of values of a structure; non-trivial: a structure with nested ones, or two different values of more than two fields. The number of structures is 120 in the quick tier and 640 in the thorough one, and depends on the seed.",
        "variants": [{"name": "fields", "sources": ["fields.cpp -DPART=%d" % i for i in range(5)], "std": "gnu++20", "lib": False, "gen": "gen_fields.py", "guided": False}],
    },
}
