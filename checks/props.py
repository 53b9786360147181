"""The texts of the properties; bin/gen.py writes properties.jsonl and MANIFEST.json from them."""

def P(id, title, statement, over, quant, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})})

PROPS = [
P("P01", "vector_set behaves as a sorted set with positional access",
  "After any history of operations a vector_set holds exactly the elements a sorted set without duplicates would hold, iterates over them in order in both directions, and agrees with it on find, lower/upper bound, contains, size, comparison and on what insert, emplace and erase return. at(i)/operator[] give the i-th element in order and index_of is its exact inverse, for every index. Copies are independent and equal, moves transfer the contents, references and iterators to elements that are not removed stay valid, every element is destroyed exactly once, and an element constructor that throws changes and leaks nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of insertions, removals, lookups, copies, moves, swaps and throwing constructions over several sets, for several element types and comparators",
  "The unit tests insert and erase a few thousand random integers and compare with std::set, in a handful of fixed shapes; they never mix in copies, moves, heterogeneous lookup, throwing elements or stateful allocators.",
  ["Awl/VectorSet.h"],
  [("subtree counts maintained by rotations, insertion and removal", "Awl/VectorSet.h"), ("red-black tree with a parent link", "Awl/VectorSet.h")]),
P("P02", "vector_set operations take O(log N) comparisons",
  "Looking up, inserting, removing, bounding and indexing an element of a vector_set of N elements takes a number of comparisons and steps bounded by a small multiple of log2(N + 1), whatever the order in which the elements were inserted or removed.",
  ["inputs", "histories"],
  "every order of insertions and removals, ascending, descending, random, clustered, or chosen against the shape of the tree, up to tens of thousands of elements",
  "No test measures a cost: an unbalanced tree returns all the right elements and passes every one of them.",
  ["Awl/VectorSet.h"],
  [("recolouring and rotation after an insertion and a removal", "Awl/VectorSet.h")]),
P("P03", "ring keeps the last elements of a bounded queue, in order",
  "A ring of capacity N behaves as a queue that drops its oldest element when one is pushed into a full one: size, capacity, front, back, operator[], at (which throws out of range), iteration in both directions and random access all agree with that model after any history. Copying, moving, assigning and swapping keep contents and capacity; every element is destroyed exactly once; pushing a copy of one of its own elements works; an element constructor that throws leaves the ring valid and leaks nothing.",
  ["inputs", "histories", "fault_sequences"],
  "every history of pushes, pops, clears, assignments, moves and throwing constructions, for every capacity and wrap-around position",
  "The tests push a few integers into one ring; wrap-around combined with copies, moves, pops and exceptions is not sampled.",
  ["Awl/Ring.h"], [("circular index arithmetic", "Awl/Ring.h")]),
P("P05", "Intrusive lists keep every linked element exactly once and in order",
  "After any history of pushes, insertions, removals, pops, splices, list moves and destructions of elements, single- and double-linked intrusive lists hold exactly the elements put in and not taken out, in the right order, in both directions where the list offers it, and agree on size, emptiness, front and back. An element that is taken out or moved leaves the rest of its list intact, and asking it whether it is in a list tells the truth; a moved list takes all the elements along and leaves the source empty and usable.",
  ["histories"],
  "every history over several lists and elements, including elements linked in several lists through different links",
  "The tests cover a few fixed sequences; the interesting histories combine splices of parts, list moves and elements destroyed in the middle.",
  ["Awl/QuickList.h", "Awl/SingleList.h", "Awl/QuickLink.h", "Awl/SingleLink.h", "Awl/SingleIterator.h", "Awl/DoubleIterator.h", "Awl/SingleNodeIterator.h"],
  [("circular links with a sentinel", "Awl/QuickList.h"), ("head and last pointers", "Awl/SingleList.h")]),
P("P06", "Every subscribed observer is notified exactly once, in order, and only then",
  "A notification calls exactly the observers that are subscribed at that moment, each exactly once, in subscription order and with the right arguments, and notify_while_true stops at the first one that returns false. An observer whose own callback unsubscribes, destroys or moves it, or does so with observers called before it, or subscribes others in the middle of a notification, never causes a missed, repeated or dangling call to the remaining ones; moving an observable takes its subscriptions along, moving an observer keeps its place, and destroying either side ends the subscription.",
  ["histories"],
  "every history of subscriptions, unsubscriptions, moves, destructions and (nested) notifications, including those made from inside callbacks",
  "The tests notify two or three observers in fixed situations; the guarantee is about what happens to the rest of the list when it changes during the notification.",
  ["Awl/Observable.h", "Awl/QuickList.h"], [("iterator advanced before the call", "Awl/Observable.h"), ("self-unlinking observer", "Awl/QuickLink.h")]),
P("P07", "Observable sets report every change; mirrors and foreign sets follow exactly",
  "Each change of an observable set is reported exactly once and only when it happens (added after an element was really added, removing while the element is still there, clearing before the set is emptied), so that a subscriber that replays the reports always has the contents of the set. A mirror set always equals the image of its source, a foreign set holds exactly the related elements, in agreement with a model, and they keep doing so after copies, moves, assignments and insertions that were refused.",
  ["histories"],
  "every history of insertions, removals, clears, moves and assignments over a set with several subscribers",
  "The tests add and remove a few elements; they do not take moved and assigned sets or refused insertions through long histories.",
  ["Awl/ObservableSet.h", "Awl/MirrorSet.h", "Awl/ForeignSet.h"], [("notification next to the change of the underlying set", "Awl/ObservableSet.h")]),
P("P08", "Enum names, member names, bitmaps and integer ranges are exact",
  "Converting an enumerator to its name and back is the identity, case rules included, and an unknown name or value is refused; member names come out of the declarations in order and trimmed. A bitmap over an enum or an integer behaves as a set of bits under all of its operators, also beyond 64 bits, and its text form parses back to the same value; an integer range visits exactly the values of the half-open interval, in order.",
  ["inputs"],
  "every enumerator, every text near a name, every set of flags for sizes below, at and above the machine word, every pair of bounds",
  "The tests use two or three enumerators and small bitmaps with a fixed spelling of the declarations.",
  ["Awl/EnumTraits.h", "Awl/BitMap.h", "Awl/Reflection.h", "Awl/IntRange.h"], [("split of the stringized declaration", "Awl/Reflection.h"), ("bitset with a text form", "Awl/BitMap.h")]),
P("P09", "Decimals are parsed and printed without losing a digit",
  "A text of an optional sign, digits and an optional fraction is parsed to exactly the number it denotes, normalized, for every number that the mantissa and the number of fractional digits can hold; every other text, too long or malformed, is refused with an exception and nothing outside of the text is read. Printing gives exactly the digits of the number, for narrow and wide characters, and printed numbers and their bit representation convert back to the same value.",
  ["inputs"],
  "every text and every mantissa, sign and number of fractional digits, for each width of the underlying integer",
  "The tests convert a few dozen literals; the limits of the mantissa, long rows of zeros and malformed texts are not covered.",
  ["Awl/Decimal.h", "Awl/DecimalData.h", "Awl/DecimalConstants.h", "Awl/String.h"], [("digit accumulation with overflow checks", "Awl/Decimal.h"), ("printing of the integer and fractional parts", "Awl/Decimal.h")]),
P("P10", "Decimal arithmetic and comparison are exact, overflow throws",
  "Addition, subtraction, negation and multiplication of decimals give exactly the mathematical result, or throw a logic error when the operands brought to a common scale or the result cannot be represented, never a wrong number, and never throw when they can. The six comparisons agree with the order of the numbers whatever their scales and signs, zero being equal to itself with either sign.",
  ["inputs", "histories"],
  "every pair of values, including equal values at different scales, neighbours and values at the limits, and chains of operations",
  "The tests check a few sums and comparisons; the limits and the mix of scales are where silent wrap-around would occur.",
  ["Awl/Decimal.h", "Awl/DecimalData.h", "Awl/DecimalConstants.h"], [("alignment of scales", "Awl/Decimal.h"), ("comparison of integer and fractional parts", "Awl/Decimal.h")]),
P("P11", "Rescaling, rounding and conversions of decimals are right or refused",
  "Extending, trimming, rescaling, normalizing, flooring and ceiling a decimal keep its value or round it in the stated direction, and throw if the result does not fit or a checked rescale would lose digits. Conversions from integers and to integers (truncating) are exact, those from and to floating point agree to the precision of the type with the stated rounding, values that do not fit, infinities and NaN are refused, and the conversion to nanoseconds keeps the first nine fractional digits.",
  ["inputs"],
  "every value, number of digits, integer and floating-point number",
  "The tests round thirds and a few literals; large integers, overflow and the extreme numbers of digits are not sampled.",
  ["Awl/Decimal.h", "Awl/DecimalTime.h"], [("multiplication or division by a power of ten", "Awl/Decimal.h")]),
P("P12", "Serialized values are read back equal, in the documented format",
  "Writing a value of any supported type (arithmetic types, enums, strings, containers, optionals, variants, pointers, chrono values, decimals, bitmaps, structures and their nestings) and reading it back gives an equal value, whatever the object held before, and consumes exactly the bytes that were written. The bytes are the same for every kind of output stream, a measuring stream reports their exact number, and they follow one format, so that what one build writes another one reads.",
  ["inputs"],
  "every type in every nesting and every value of it, read into an object with any previous contents, through every kind of stream",
  "The tests write a few default-like values of a few types into fresh objects; values of unusual sizes, nestings and reused objects are not sampled.",
  ["Awl/Io/Rw/", "Awl/Io/ReadWrite.h", "Awl/Io/PlainReader.h", "Awl/Io/MeasureStream.h", "Awl/Io/VectorStream.h", "Awl/Io/StdStream.h"],
  [("length and elements", "Awl/Io/Rw/CollectionReadWrite.h"), ("bits packed into bytes", "Awl/Io/Rw/VectorReadWrite.h"), ("index and alternative", "Awl/Io/Rw/VariantReadWrite.h")]),
P("P13", "Reading garbage ends in a value or an exception, never in undefined behaviour",
  "Whatever bytes a reader is given, truncated, altered or random, reading a value of any supported type either returns a value or throws an exception: it never reads or writes outside of its objects, never hangs, never invents an enumerator, an alternative or a decimal out of range. A truncated encoding is always refused, a string longer than the limit is refused before it is stored, and a serializable object keeps its old value when reading it fails. The same holds for documents with metadata, whose lists of types and fields and indices of structures may be wrong.",
  ["inputs"],
  "every sequence of bytes read as every type",
  "The tests corrupt a byte or two of one document; the space of broken inputs of a binary format can only be searched.",
  ["Awl/Io/Rw/", "Awl/Io/PlainSerializable.h", "Awl/Io/SerializationContext.h", "Awl/Io/Reader.h", "Awl/Io/PlainReader.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Prototype.h"],
  [("end of stream detection", "Awl/Io/Rw/ReadRaw.h"), ("limit of a string", "Awl/Io/Rw/StringReadWrite.h"), ("validation of an index or an enumerator", "Awl/Io/Rw/"), ("validation of metadata", "Awl/Io/Reader.h")]),
P("P14", "A document written by one version of a structure is read by another one",
  "A value written with its prototypes by any version of a family of reflected structures is read by any other version: fields present in both keep their values wherever they moved, renamed fields follow the field map, removed fields are skipped whatever their type and depth, new fields get their defaults, and the bytes after the value are untouched. A change that cannot be migrated, or a removal where removing is not allowed, is refused with an exception, and then the object keeps its old value.",
  ["inputs", "histories"],
  "every pair of versions: any fields added, removed, reordered, renamed or retyped at any depth, inside containers, variants and pointers, and every value",
  "The tests migrate between two fixed versions; each combination of added, removed and moved fields of each type takes another path through the field maps, skippers and type tables.",
  ["Awl/Io/Reader.h", "Awl/Io/Writer.h", "Awl/Io/PrototypeContainer.h", "Awl/Io/VersionTolerantSerializable.h", "Awl/Io/FieldMap.h", "Awl/Prototype.h"],
  [("map of old fields to new ones", "Awl/Io/Reader.h"), ("skipping of a removed field by its type", "Awl/Io/Reader.h"), ("table of types and prototypes", "Awl/Io/Writer.h")]),
P("P15", "A hash stream delivers exactly the data that was written or reports the damage",
  "Data written through a hash stream in pieces of any size, with any block size, is read back in pieces of any size as the same data; the blocks have the documented layout. Any alteration of bytes is reported as a corruption before the altered data is delivered, a truncation never yields anything but a prefix of the data, and an object read under a hash keeps its value when the data is damaged. A failure of the output is reported to the one who writes and never ends the process; a snapshot is written as the same bytes as the object had when it was taken.",
  ["inputs", "fault_sequences"],
  "every block size, data, pattern of writes and reads, damage and point of failure",
  "The tests read one vector and corrupt one byte; boundaries of blocks against boundaries of reads, and failing outputs are not covered.",
  ["Awl/Io/HashStream.h", "Awl/Io/HashingSerializable.h", "Awl/Io/EuphoricallySerializable.h", "Awl/Crypto/Crc64.h"],
  [("hash checked before a block is delivered", "Awl/Io/HashStream.h"), ("last incomplete block", "Awl/Io/HashStream.h")]),
P("P16", "A header admits exactly the documents of its format and version",
  "A document with a header is read only if its format name is equal to the expected one and its version is the same; a newer version is refused, an older one goes to the handler of old versions or is refused, a format name longer than the limit is refused when written and when read. A refusal is an I/O exception and leaves the object as it was, and a snapshot has the same header as the object.",
  ["inputs"],
  "every pair of format names, versions and limits, with intact and damaged documents",
  "The tests try one wrong format and one wrong version.",
  ["Awl/Io/HeaderedSerializable.h"], [("comparison of the header", "Awl/Io/HeaderedSerializable.h")]),
P("P17", "A saved value survives a crash at any moment",
  "A storage that keeps a value in a master and a backup file: when a process dies, or the machine stops, at any moment of any history of saves, the next process, which opens the files and loads, gets the last value whose save was completed or one whose save had been started after it, whole and never mixed with another, and a value that was saved stays loadable. If writing fails, save() reports it with an exception and the previous value remains loadable until a later save succeeds; a load that returns false leaves the object as it was. A save under a lock writes the value as it was when the lock was held, and touches the files only after the lock is released. An open storage is empty exactly when both files are.",
  ["crash_points", "fault_sequences", "histories"],
  "every history of saves and loads, every point of a crash with unsynced writes lost, torn or reordered, every failing call",
  "The tests save, damage one file and load; no test stops between two writes or makes one fail.",
  ["Awl/Io/AtomicStorage.h", "Awl/Io/AtomicStorage.cpp", "Awl/Io/PersistentObject.h", "Awl/Io/Snapshotable.h", "Platforms/Posix/Awl/Io/NativeStream.h"], [("order of writing and clearing of the backup", "Awl/Io/AtomicStorage.h"), ("recovery", "Awl/Io/AtomicStorage.cpp")]),
P("P18", "Persistent objects tolerate missing, damaged and foreign files",
  "Opening a persistent object says whether a file existed, creates what is missing and never changes the value. Loading accepts exactly a whole, undamaged document of its own format and version whose fields have the types they have now, from the backup if there is one there, otherwise from the master, and brings the files into the normal state; anything else is refused with the object and the files left as they were. Saving puts exactly the document of the value into the master and leaves the backup empty; closing keeps the files, removing deletes both. Objects over an optional storage never throw, they work without the files if these cannot be opened.",
  ["histories", "inputs", "fault_sequences"],
  "every history of calls on every combination of missing, damaged, exchanged and foreign files, with errors of the file system",
  "The tests damage a file in one or two ways; combinations of the states of the two files are not covered.",
  ["Awl/Io/PersistentObject.h", "Awl/Io/OptionalStorage.h", "Awl/Io/OptionalStorage.cpp", "Awl/Io/AtomicStorage.h", "Awl/Io/AtomicStorage.cpp"], [("tolerant open, load and save", "Awl/Io/OptionalStorage.h")]),
P("P19", "Streams over files read and write exactly what is asked, or throw",
  "A native file stream behaves as a byte array with a position: reads return the bytes that are there, writes put all the bytes at the position, seek, truncate, length and end-of-file agree with the array, and what a system call does partially is completed or reported with an I/O exception. A handle is owned by exactly one stream through moves and is closed once. Sequential, buffered, standard and measuring streams give the same bytes as the stream under them, in pieces of any size.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of reads, writes, seeks and truncations, of any sizes, with partial and failing system calls",
  "The tests write and read one buffer; partial results of the system calls do not occur in them.",
  ["Platforms/Posix/Awl/Io/NativeStream.h", "Platforms/Posix/Awl/Io/UniqueHandle.h", "Awl/Io/BufferedStream.h", "Awl/Io/StdStream.h", "Awl/Io/VectorStream.h", "Awl/Io/MeasureStream.h"], [("read and write with a position", "Platforms/Posix/Awl/Io/NativeStream.h")]),
P("P20", "Comparators, memberwise operators and hashes of structures are consistent",
  "A composite comparator orders by its first criterion that makes a difference, in the direction of each; key, transparent, pointer and reverse comparators agree with the order of the keys in both directions and between keys and objects, so that ordered sets find exactly the elements with a given key. Memberwise operators compare the declared members in their order, equal structures have equal hashes, and structures that differ in any member mostly have different ones.",
  ["inputs"],
  "every pair of objects, in both orders, and every combination of criteria",
  "The tests compare a few fixed objects; consistency of an order is a statement over all pairs.",
  ["Awl/CompositeCompare.h", "Awl/TransparentCompositeCompare.h", "Awl/KeyCompare.h", "Awl/ReverseCompare.h", "Awl/Reflection.h", "Awl/Hashable.h"], [("chain of criteria", "Awl/CompositeCompare.h"), ("transparent comparison with keys", "Awl/KeyCompare.h")]),
P("P21", "Checksums and hashes of bytes, integers and strings follow their definitions",
  "The CRC-64 object computes the CRC-64/Jones of any sequence, whatever the kind of its iterators, with integers taken most significant byte first; the sum of a concatenation follows from the sum of the first part. Integers convert to arrays of bytes and back without loss, and a fixed hash has the same value for the same characters in every form: literal, fixed string, view and range, at compile time and at run time. The hashes made with OpenSSL are the MD5, SHA-1, SHA-256 and SHA-512 digests of the bytes.",
  ["inputs"],
  "every sequence of bytes and integers, every seed and every cut into parts",
  "The tests check one known sum.",
  ["Awl/Crypto/Crc64.h", "Awl/Crypto/IntHash.h", "Awl/Crypto/FixedHash.h", "Awl/Crypto/OpenSslHash.h", "Awl/Int2Array.h", "Awl/FixedString.h"], [("table driven sum", "Awl/Crypto/Crc64.h")]),
P("P22", "An update queue applies every pushed update exactly once and in order",
  "Updates pushed to an UpdateQueue, by any threads, are applied by ApplyUpdates() exactly once with its arguments, those of one thread in the order of pushing, in the first application that starts after the push; an update pushed by an update being applied is applied by the next application, and never within the current one. Clearing drops the pending updates without applying them, and a failing update does not spoil the queue. A pushed function is released once it was applied or cleared, blocks are reused, and everything is freed with the queue.",
  ["histories", "schedules"],
  "every history of pushes, clears and applications, with updates that push, clear or throw, and every schedule of pushing and applying threads",
  "The existing tests do not contain the queue at all; its guarantees are about interleavings of threads.",
  ["Awl/UpdateQueue.h"], [("swap of the pending list", "Awl/UpdateQueue.h")]),

P("P23", "An object pool gives an object to one owner at a time, finalized in between",
  "An object made by an object pool belongs to the shared pointers that refer to it, and to nobody else, until the last of them is gone; then it is finalized exactly once and becomes available, and it is given away again only after that. While an available object exists no new one is constructed. Clearing removes the available objects and leaves the used ones valid; every constructed object is destroyed exactly once.",
  ["histories"],
  "every history of making, copying, releasing, holding and clearing, with finalizers that themselves use the pool",
  "The existing tests make and release a few objects in one order.",
  ["Awl/ObjectPool.h"], [("deleter returning an object to the pool", "Awl/ObjectPool.h")]),

P("P24", "Guards and owning pointers act exactly once, for the right owner",
  "A scope guard runs its action exactly once when it ends engaged, and never when it was released or moved from, whatever sequence of moves and assignments led there, including when an exception is thrown. awl::unique_ptr deletes the object it owns exactly once, at release of its ownership and never before, under every sequence of moves, resets, swaps and releases. Separators and aggregators act at the boundaries between elements they promise, for any number of elements.",
  ["histories", "inputs"],
  "every sequence of construction, move, assignment, release, swap and end",
  "The tests end each guard in the one simple way.",
  ["Awl/ScopeGuard.h", "Awl/UniquePtr.h", "Awl/Aggregator.h", "Awl/Separator.h"], [("move of a guard", "Awl/ScopeGuard.h"), ("move assignment", "Awl/UniquePtr.h")]),

P("P25", "Coroutines compute what their bodies say and free their frames exactly once",
  "A ProcessTask delivers its value or exception to the coroutine that awaits it, in any order of completion of the events waited for; an UpdateTask runs until its first wait, continues with each event and, released or owned, ends exactly once. A generator yields exactly the elements its body yields, in order, references to them as references, then ends or throws what its body throws; an empty one yields nothing. Every local of every coroutine frame is destroyed exactly once, also when a task or generator is dropped, moved or released half way.",
  ["histories", "schedules"],
  "every tree of nested coroutines and every order of the events they wait for, with tasks and generators dropped, moved or released at any point",
  "The tests run a few fixed coroutines to their end.",
  ["Awl/Coro/ProcessTask.h", "Awl/Coro/UpdateTask.h", "Awl/Coro/Generator.h", "Awl/Coro/AsyncGenerator.h"], [("continuation of the awaiting coroutine", "Awl/Coro/ProcessTask.h"), ("ownership of the frame", "Awl/Coro/UpdateTask.h")]),
P("P26", "A stop request reaches every token and calls every callback exactly once",
  "For the stop_source, stop_token and stop_callback that the library brings along: exactly one request_stop() of a state is true; after it every token and source of the state knows it. Every callback registered before it and not destroyed is called exactly once, before the successful request returns and by its thread; one registered afterwards is called at once by its constructor. Nothing is called without a request, twice, or after its destruction, which waits for a call in another thread and does not wait for its own. Callbacks can destroy themselves and others, register and request. Whatever order copies, moves and destructions take in any threads, the state lives as long as anything refers to it, and is freed then.",
  ["histories", "schedules"],
  "every history of copies, moves, requests, registrations and destructions, re-entrant ones included, and every interleaving of the threads",
  "The tests run a few orders of events that the scheduler of the machine happens to give.",
  ["Extras/JThread/JThreadExtras/stop_token.hpp"], [("calling the callbacks", "Extras/JThread/JThreadExtras/stop_token.hpp")]),
P("P27", "Waits with stop tokens lose no wakeup; joining threads are stopped and joined",
  "A wait on condition_variable_any2 ends when it is notified and its predicate holds, when its token is stopped, or when its time is over, and for no other reason: no notification or stop request is lost, whatever the interleaving with the start of the wait. Predicates are called with the lock held, the lock is held again on return, and the result is that of the predicate. The object can be destroyed as soon as all waits were notified. A jthread passes its arguments and token, keeps its stop state through moves and swaps, and when it is destroyed or overwritten while joinable it requests the stop and returns only when the thread is over.",
  ["histories", "schedules"],
  "every set of waits, notifications, stops and timeouts, every history of thread objects, and every interleaving",
  "A lost wakeup needs one particular interleaving, which the tests meet by luck only.",
  ["Extras/JThread/JThreadExtras/condition_variable_any2.hpp", "Extras/JThread/JThreadExtras/jthread.hpp"], [("wait with a token", "Extras/JThread/JThreadExtras/condition_variable_any2.hpp"), ("stop and join", "Extras/JThread/JThreadExtras/jthread.hpp")]),
P("P28", "Interruptible sleep ends in time; a watch dog stops exactly for its reasons",
  "sleep_for() returns when its time is over, or at once when the token is stopped, before or during the sleep: a stop request is never missed, and without one it does not return early. The token of a watch_dog is stopped when the time is over, after the log was called exactly once and not before the time, or when the user cancels, and not otherwise while the dog exists. Destroying the dog ends it without waiting for the time, and nothing of it is used afterwards or before it was constructed.",
  ["schedules"],
  "every interleaving of sleeping, stopping, cancelling, timing out, constructing and destroying",
  "The tests sleep for fixed times with a comfortable distance between the events.",
  ["Awl/Sleep.h", "Awl/WatchDog.h"], [("notification of the sleeper", "Awl/Sleep.h"), ("thread of the dog", "Awl/WatchDog.h")]),
P("P29", "The test framework runs exactly the chosen tests and tells what failed",
  "For every set of tests and every command line: without a list of names the tests whose whole name matches the filter are run, with it the named ones, each in the order of names and as many times as asked, up to the first failure; nothing else is run. The outcome says whether all passed, one failed or the request was refused. The output of a test is shown always, never, or only that of the run that failed, as asked. A test sees each attribute with the value of the command line if it is a valid value of its type, otherwise with its default value; options that nobody asked for are reported. A test that is not over within the timeout is asked to stop, and this is reported; one that is over in time is not. An assertion fails exactly when its condition does not hold. A scalar or a collection that is printed is read back equal.",
  ["histories", "inputs"],
  "every set of tests with their outcomes and every command line",
  "The framework runs the tests but is itself tested in a few lines of the formatter.",
  ["Awl/Testing/TestMap.cpp", "Awl/Testing/TestConsole.cpp", "Awl/Testing/CommandLineProvider.cpp", "Awl/Testing/LocalAttribute.h", "Awl/Testing/Formatter.h", "Awl/Testing/ScalarFormatter.h", "Awl/Testing/TestAssert.h", "Awl/Testing/TestChain.h"], [("selection and running", "Awl/Testing/TestMap.cpp"), ("outcome", "Awl/Testing/TestConsole.cpp"), ("options", "Awl/Testing/CommandLineProvider.cpp")]),
P("P30", "Timed coroutines resume in order, never early; times are measured exactly",
  "A coroutine that waits for a duration in a time queue is resumed exactly once, never before that duration is over, and never before another one of the same queue whose time comes earlier; the loop does not sleep past the earliest time and ends only when nothing waits any more, whatever the coroutines start or wait for meanwhile. A wait of no time does not suspend. A stop watch tells the time since it was made, or given, or reset, in every unit, and an interval has elapsed exactly from its end on. A duration is written so that its exact value is read back. make_time() gives the moment whose local time has the given fields.",
  ["histories", "inputs"],
  "every program of waits, every behaviour of the clock and the sleep, every duration and calendar time",
  "The tests wait for a few real delays with ample distances.",
  ["Awl/Testing/TimeQueue.h", "Awl/StopWatch.h", "Awl/Time.h"], [("order of the timers", "Awl/Testing/TimeQueue.h"), ("elapsed time", "Awl/StopWatch.h"), ("calendar time", "Awl/Time.h")]),
P("P31", "Type names and lists follow the structure of a type, whatever its containers",
  "The name a type has in a document, and the hash of it, are determined by what is serialized: the width and kind of numbers, sequences of whatever container, pairs, optionals, variants, arrays with their length, pointers, decimals and structures, and two types have equal names exactly if these are equal. The list of types of a structure contains it and everything inside of it, in order, including the added types of deleted fields; the variant made of one or more structures has every type of the lists exactly once, in order of first occurrence, and splitting a variant divides its types without losing, repeating or reordering them.",
  ["inputs"],
  "every type composed of arithmetic types, enumerations, strings, containers, pairs, arrays, optionals, variants, pointers, decimals, times and structures",
  "The static assertions name about twenty particular types.",
  ["Awl/Mp/TypeDescriptor.h", "Awl/Mp/TypeHash.h", "Awl/Mp/TypeCollector.h", "Awl/Mp/TupleToVariant.h", "Awl/Mp/VariantFromStructs.h", "Awl/FixedString.h"], [("names of types", "Awl/Mp/TypeDescriptor.h"), ("lists of types", "Awl/Mp/TypeCollector.h"), ("distinct alternatives", "Awl/Mp/TupleToVariant.h")]),
P("P32", "Helpers of text, numbers, tuples and registries give exact results",
  "Rounding gives the nearest integer, halves away from zero; clamp and sign are right for every type and order. position_changed() tells exactly whether an element of a sorted range must move. Comparators of C strings are strict weak orders that agree with the order of the strings, with or without case; text goes from UTF-8 to wide characters and back unchanged; 128-bit integers, optionals and formatted messages are written exactly, and loggers and exceptions keep level, message and what they were made with. Functions over tuples visit every element once, in order, with its index. A factory creates by the registered name and signature and otherwise throws; every link is in its chain once. A shared singleton has at most one instance, made when asked for, and made again only if it is on demand. Every thread has a random engine of its own.",
  ["inputs", "histories"],
  "every argument, tuple, set of registered names and history of owners",
  "The tests call each helper with a few values.",
  ["Awl/Math.h", "Awl/RangeUtil.h", "Awl/String.h", "Awl/StringFormat.h", "Awl/TupleHelpers.h", "Awl/Combinator.h", "Awl/StaticChain.h", "Awl/StaticFactory.h", "Awl/SharedSingleton.h", "Awl/Logger.h", "Awl/ConsoleLogger.h", "Awl/Exception.h", "Awl/Getters.h", "Awl/OptionalMutex.h", "Awl/Random.h", "Awl/Io/IoException.h"], [("rounding", "Awl/Math.h"), ("128-bit output and comparators", "Awl/String.h"), ("lookup by name", "Awl/StaticChain.h")]),
P("P33", "Multiprecision integers and wide decimals keep every bit in memory and files",
  "An integer of boost::multiprecision of 128 to 1024 bits, signed or not, is written as its length with the sign and its bytes without leading zeros, and read back equal, alone or inside containers and decimals; the reader consumes exactly the bytes of the number. A number longer than the format can hold is refused before anything is written, and bytes that are incomplete, of a wrong length or do not fit the type are refused, never read out of bounds or cut. The sign, exponent and mantissa of a decimal over such an integer are independent of each other and survive the conversion to bits and back.",
  ["inputs", "histories"],
  "every value and sign of every width, every sequence of bytes, every order of setting the parts of a decimal",
  "The tests write and read ten values per type and are not even a part of the build without boost; wrong bytes are never read.",
  ["Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h", "Extras/Boost/BoostExtras/MultiprecisionDecimalData.h", "Extras/Boost/BoostExtras/MultiprecisionTraits.h"], [("length, sign and bytes", "Extras/Boost/BoostExtras/Io/Rw/MultiprecisionReadWrite.h"), ("bit fields", "Extras/Boost/BoostExtras/MultiprecisionDecimalData.h")]),
P("P34", "A structure is seen as its declared members, in order, at every level",
  "The tuple a structure is turned into refers to its own members, all of them and in the order of the declaration, for constant and variable objects, and iteration, transformation, getters and assignment through it do the same; the generated comparison operators compare the members lexicographically. The names of the members are exactly the declared ones, whatever the spaces in the declaration, and are found at their own positions. The prototype of a structure lists the names and types of its fields; a detached one equals it exactly if all of them are the same. The number of fields counts the members of nested structures, and the position of a type is that of its first occurrence among them, or none.",
  ["inputs"],
  "every structure of members of any types, nested to any depth, every spelling of its declaration, and every pair of values of it",
  "The static assertions look at four structures; operators are tested for two fields.",
  ["Awl/Tuplizable.h", "Awl/Reflection.h", "Awl/TupleHelpers.h", "Awl/Io/TypeIndex.h", "Awl/Getters.h", "Awl/Prototype.h"], [("members as a tuple", "Awl/Tuplizable.h"), ("names", "Awl/Reflection.h"), ("positions of types", "Awl/Io/TypeIndex.h")]),
]

NOT_APPLICABLE = {}
