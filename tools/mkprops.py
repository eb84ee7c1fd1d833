#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Cached entries are pinned while held and carry their own key's data",
  "Whatever the interleaving of callers, an entry returned by a cache get contains exactly the data the loader produced for the requested key, and while any caller holds it that data is not reloaded, freed, moved or replaced. At no time do two live entries for one key exist, so a key that somebody holds is never loaded a second time.",
  ["schedules", "histories", "inputs"], "every interleaving of get and release by any number of threads, every capacity, concurrency and key sequence, including negative and extreme keys",
  "The unit tests use one thread, or free-running threads whose interleaving nobody chooses, and few keys; the race between an eviction and a hit on the same entry needs a particular preemption.",
  ["cache.c", "cache.h"], [("active count per entry, list removal while held, lock per shard", "cache.c"), ("key tree per shard", "tree.c")],
  [("activeCount", "callers holding an entry", "cache.h"), ("list first/last", "unheld entries by recency", "cache.c")], ["CacheGet return value", "loader callback", "data of held entries"])
p("C02", "The cache is a bounded least-recently-used store that only refuses when full",
  "A cache serves a key from memory without calling the loader while that key is resident, never holds more entries than its capacity, and on a miss in a full shard replaces only the entry that was released longest ago. A get without a loader error returns nothing only while every entry the key could use is held by callers, and as soon as entries are released their places can be used again. For a cache with one shard the hit and miss counts equal the gets served without and with a call of the loader.",
  ["schedules", "histories", "inputs"], "every interleaving and history of gets and releases over any capacity and concurrency",
  "Tests check eviction on a few fixed sequences with one thread; that every concurrent history is explained by some order of an LRU cache is a statement about all interleavings.",
  ["cache.c", "cache.h", "tree.c"], [("doubly linked list by recency, allocation counter, hit and miss counters", "cache.c")],
  [("allocated", "slots used so far", "cache.c"), ("hits/misses", "served from memory / loaded", "cache.h")], ["CacheGet return value", "loader calls", "hits and misses"])
p("C03", "A failing cache loader is reported, not remembered, and costs no capacity",
  "When the loader fails for a key, that get reports the loader's error through the caller's exception, and no later get returns an entry made from the failed load: the key is loaded again. Once failures stop and all entries are released, the cache again holds its full capacity of entries, other keys' entries were never disturbed, and freeing the cache releases everything, whichever loads failed.",
  ["fault_sequences", "schedules", "histories"], "every sequence and placement of loader failures (errors and memory exhaustion) within concurrent use",
  "No test makes a loader fail, let alone repeatedly and between concurrent hits on the same shard.",
  ["cache.c", "collection.c", "data.c"], [("failed node kept out of the key tree and given back to the free list", "cache.c cacheLoad"), ("loader result checked before use", "collection.c")],
  observe=["exception of CacheGet", "loader calls", "entries obtainable at once", "live allocations"])
p("C04", "Pooled resources are exclusive, conserved and freed exactly once",
  "A resource or file handle obtained from a pool belongs to one caller until it is given back: no second caller receives it meanwhile, and none is lost or duplicated under any interleaving. A get fails, and then reports that handles are insufficient, only at a time when all the pool's resources are out; freeing the pool frees each resource exactly once, also when creating one of them failed part-way, in which case the failure is reported.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of get and release by any number of threads around any pool size, and every failing creation step",
  "The pool is lock free: the ABA interleaving, a lost update on the head and a release racing a get cannot be forced from a test.",
  ["pool.c", "pool.h", "file.c"], [("compare and swap of head index plus change counter", "pool.c"), ("null item marks exhaustion", "pool.c PoolInit")],
  [("head", "index of first free item with ABA counter", "pool.h")], ["PoolItemGet / FileHandleGet results", "resource create/free callbacks"])
p("C05", "A managed resource lives until replaced and its last user is done, freed once",
  "A handle acquired from a resource manager refers to a resource that was the manager's current one at some moment during that call, and neither the resource nor the handle is freed while any acquirer still holds it or while it is current. Each resource is freed exactly once: at the moment it has been replaced (or its manager freed) and its last holder has released it, by whichever thread comes last, and never leaks.",
  ["schedules", "histories"], "every interleaving of acquire, release, replace and manager free by any number of threads",
  "Reference counting with a double-width compare and swap fails only in windows of a few instructions; the existing tests run free-running threads and mostly a single replace.",
  ["resource.c", "resource.h"], [("double width compare and swap of handle and use count", "resource.c")],
  [("counter", "self pointer and number of users", "resource.h"), ("active", "current handle", "resource.h")], ["freeResource callback", "contents of held resources", "handle returned by HandleIncUse"])
p("C06", "Reloading a data set is atomic for its users and a failed reload changes nothing",
  "While a data set is reloaded, from file or memory and any number of times concurrently with its use, every acquired data set is one complete version, old or new, whose contents stay valid until that user releases it; it offers exactly those of the properties required at the start that its version has (of the properties of the data set it replaces, after a reload); and an acquisition that starts after a successful reload finished sees that version or a later one. A reload that fails, at whatever step, reports the failure, leaves the previous version in service and leaves no memory, open file or temporary file behind; each version is freed exactly once after its last release.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of get, release and reload and every failing step of a reload",
  "The reload tests of this library are free-running and never make the new data set's initialisation fail half-way through a reload.",
  ["dataset.c", "dataset.h", "resource.c", "file.c"], [("new data set built aside, then swapped by resource replace", "dataset.c"), ("temp file and handle pool released by data set free", "dataset.c")],
  observe=["DataSetGet / DataSetRelease", "reload status", "live allocations, open files and temp files"])
p("C07", "A collection gives the same items however it is stored and however many read it",
  "For one data file, every storage configuration of a collection (in memory, loaded from file, partly loaded, cached, streamed from file) returns for each valid index or offset exactly the bytes in the file, for fixed and variable size items and for any number of concurrent readers. An item's bytes stay unchanged until that reader releases it, and an index or offset beyond the collection is refused with an error in every configuration and never read.",
  ["schedules", "configurations", "histories", "inputs"], "every storage configuration, item sequence and interleaving of readers, within the configured concurrency",
  "Tests compare one configuration at a time with little concurrency; equality across configurations under shared caches and shared file handles quantifies over schedules.",
  ["collection.c", "cache.c", "pool.c", "file.c", "data.c"], [("get/release methods per storage kind", "collection.c"), ("partial collection chained to the next", "collection.c")],
  observe=["collection get result bytes", "exception", "open file handles"])
p("C08", "Collection reads under I/O faults give right bytes or a reported failure",
  "When opening, seeking or reading the data file fails, or memory runs out, an item get either returns the item's exact bytes or returns nothing and reports an error through the exception; it never returns other bytes and never a failure without an error. Every failed get gives back its file handle and memory, damages no other item, and after faults stop every item can be read correctly at the configured concurrency; a collection whose creation fails reports that and leaves nothing behind.",
  ["fault_sequences", "schedules", "configurations"], "every placement of open, seek, read, short read, end of file and allocation failures in creation and use of each storage configuration",
  "The tests never make a system call fail; failure paths of the readers and the cache loader are not executed at all.",
  ["collection.c", "cache.c", "file.c", "data.c", "pool.c"], [("exception set by each reader and handle released on every path", "collection.c CollectionReadFile*"), ("data allocation reused between loads", "data.c")],
  observe=["collection get result and exception", "open handles", "live allocations"])
p("C09", "Whole-file copy, write and read either succeed exactly or report failure",
  "Copying a file, writing a buffer to a file and reading a file into memory return success only if the destination then holds exactly the source's bytes, whatever short reads or writes, full disk, lost buffered data at close or other I/O errors occur; any failure is reported by a status that is not success. On failure the source is unchanged, no stream stays open, no memory stays allocated, and a failed copy leaves no incomplete destination file behind (unless deleting it fails too). The file mode creation mask of the process is the same afterwards, however many threads create files at once. A file they create can be read and written by everyone whatever that mask is, and one that existed keeps its permissions. Deleting a file, creating a directory, taking a file's size and looking a data file up report success only when that is so, and the file name of a path is what follows its last separator. Copying a file onto itself is outside this property.",
  ["fault_sequences", "inputs", "crash_points"], "every placement of open, read, write, seek, tell and close failures, every file size including empty and exact multiples of the copy buffer",
  "Tests exercise only success and a missing file; a write error that only shows when the stream is closed never happens in them.",
  ["file.c", "file.h"], [("copy loop and result checks", "file.c FileCopy, FileWrite, FileReadToByteArray")], observe=["status codes", "bytes of the destination", "open streams and live memory"])
p("C10", "A created temporary file is a complete private copy in the first usable path",
  "When a temporary copy of a data file is created, success means that the reported path is inside the first configured directory that accepts it (the working directory if none is configured) and names a complete byte-for-byte copy that no other creation, in this or another process, with any clock resolution, was also given. Exactly one file is created per success, and a failure is reported, leaves the original and all other files untouched and leaves no partial copy behind and no stream open. A clock that cannot be read changes none of this. The copy can be read and written by everyone and the process's file mode creation mask is unchanged once creations have ended.",
  ["fault_sequences", "schedules", "configurations", "crash_points"], "every interleaving of concurrent creations by several processes, every failing directory and I/O step, every clock behaviour",
  "Name collisions need two processes to read the same clock tick; failure of the first of several directories is never tested with a partial write.",
  ["file.c"], [("random name from clock and process, exclusive creation", "file.c FileAddTempFileName, CreateTempFile*")], observe=["status", "returned path", "all files on disk"])
p("C11", "Temp file reuse and clean-up touch only unused files that match the master",
  "Cleaning up temporary files deletes only files whose name derives from the master's and whose contents match it for the compared length, and never the master file, never a file that this or another running process that can be inspected has open throughout the clean-up, and never anything outside the given directories; it looks in all the given directories and reports how many files it deleted. Looking for an existing temporary file to reuse returns only the path of such a matching file, from the first given directory that has one, even while other processes create, open and delete such files, and errors while inspecting a file or process leave that file alone.",
  ["fault_sequences", "schedules", "configurations", "inputs"], "every set of directories, file names and contents, open files of several processes, and every failing directory, open, read or link operation",
  "The tests have one directory, one process and no failing system call.",
  ["file.c"], [("open file scan over processes", "file.c isFileInUse"), ("bounded comparison with master", "file.c compareFiles")], observe=["files on disk", "returned count and path"])
p("C12", "Streaming text and YAML readers do not depend on chunking and report errors",
  "The text reader delivers exactly the file's lines, in order, and the YAML evidence reader exactly the documents' key/value pairs in order up to the requested limit, regardless of buffer sizes, of how reads are split and of where lines fall relative to buffer boundaries. Lines are separated by runs of line feeds and carriage returns. A read error or failed open is reported by the status of the YAML reader and never delivered as data; the text reader, which has no status, then delivers only a prefix of the lines. The callback is called only with complete lines or documents, and the readers never write outside the caller's buffers and always close the file.",
  ["inputs", "fault_sequences"], "every file content, buffer size and position of short reads and read errors",
  "Tests use a few files and one buffer size, so boundaries in the middle of line breaks and read errors are not reached.",
  ["textfile.c", "yamlfile.c"], [("incremental scanning with state carried over refills", "textfile.c, yamlfile.c")], observe=["sequence of callbacks", "status"])
p("C13", "Running out of memory is reported and leaves nothing leaked or corrupted",
  "If any single allocation or sequence of allocations fails inside a library operation (creating caches, pools, collections, resource managers, data sets, evidence, headers, lists, overrides, properties, memory readers, status and exception messages), the operation reports failure through its return value, status or exception, in the way its documentation states. It does not crash, does not access memory it does not own, does not free anything twice and leaks nothing once the caller frees what it was given, and the same operation succeeds when memory is available again.",
  ["fault_sequences", "inputs"], "every choice of failing allocations in every operation covered by the workload",
  "Allocation never fails in the tests.",
  ["cache.c", "collection.c", "data.c", "dataset.c", "evidence.c", "exceptionsc.c", "file.c", "headers.c", "list.c", "memory.c", "overrides.c", "pool.c", "properties.c", "pseudoheader.c", "resource.c", "results.c", "status.c"],
  [("null checks and INSUFFICIENT_MEMORY exceptions", "all allocation sites")], observe=["return values and exceptions", "simulated heap: accesses, frees, live blocks"])
p("C14", "Memory tracking counts exactly what is allocated, from any number of threads",
  "With tracking on, the reported allocated total equals the sum of the sizes of live tracked allocations and the reported maximum equals the largest total reached, whichever threads allocate and free in whichever order, also across failed allocations. Reset, while nothing tracked is live, returns both to zero without losing the ability to track, and tracked memory itself is always usable, correctly aligned and returned to the system exactly once.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of allocate and free over shared and own blocks, including first use from several threads at once, and failing allocations",
  "Tests run one fixed pattern; lost updates between threads on the totals or the tracking trees need particular interleavings.",
  ["memory.c", "memory.h", "tree.c"], [("sharded trees with a lock each, compare-and-swap maximum", "memory.c")],
  [("state.allocated / state.max", "current and peak bytes", "memory.c")], ["MemoryTrackingGetAllocated", "MemoryTrackingGetMax"])
p("C15", "Signals are never lost and locks exclude each other",
  "A signal is created set, and one that is set before or while a thread waits releases a waiter: no set is lost (sets that no waiter has consumed yet count as one), and a wait returns only after a set that no other waiter consumed, even with spurious wake-ups of the underlying condition variable. A mutex created by the library admits one holder at a time, is usable any number of times, and creating and closing signals and mutexes leaks nothing.",
  ["schedules", "fault_sequences"], "every interleaving of set, wait, lock and unlock by several threads, with spurious wake-ups",
  "A lost wake-up needs a preemption between the test of the flag and the wait.",
  ["threading.c", "threading.h"], [("flag protected by mutex and condition variable", "threading.c SignalWait, SignalSet")], observe=["wait return", "progress of all threads", "live allocations"])
p("C16", "Data queries over any storage and under faults are right and give back all items",
  "Lookups over a data image (profiles by id or offset, properties by name, values by name or index, values of a profile for a property, components, and binary search over collections) give the answer of a linear scan of the image, the same in every storage configuration, including for empty collections, the first, last and absent keys. When a read fails during a lookup the failure is reported by exception and no wrong answer is given, and after every lookup, failed or not, each collection item it acquired has been released exactly once, so that limited caches and file handles never run dry.",
  ["configurations", "fault_sequences", "inputs", "histories"], "every well-formed image, every query, every storage configuration and every placement of read failures",
  "The unit tests for these use in-memory collections only, where a missing or doubled release and a failing read are invisible.",
  ["profile.c", "property.c", "value.c", "component.c", "collection.c", "string.c"], [("item acquire/release pairing and exception checks", "profile.c, property.c, value.c, component.c"), ("binary search", "collection.c CollectionBinarySearch")],
  observe=["returned index or count", "callback sequence", "held cache entries and file handles"])
p("C17", "Item lists keep every added item until released, then release each exactly once",
  "A list of collection items gives back each added item, in order and with its bytes unchanged, until the list is released or freed, whatever happens meanwhile to the underlying cache or file. Releasing a list gives every item back to its collection exactly once so that limited caches regain their capacity, and a list can be reused after release and freed at any point without leaks.",
  ["histories", "configurations", "schedules", "fault_sequences"], "every sequence of initialise, add, get, release and free, over file-backed and cached collections shared with other threads",
  "Tests use lists over in-memory strings, where neither eviction nor handle exhaustion exists.",
  ["list.c", "list.h", "data.c"], [("items held in an array with a count", "list.c")], observe=["list get", "collection availability", "live allocations"])
p("C18", "C++ results keep their data alive and translate failures to exceptions",
  "Objects of the C++ interface that depend on a data set's resource manager (results, metadata collections and the entities made from them) remain usable, with unchanged contents, until they are destroyed, whichever of engine, results or collections is destroyed first and whether or not the data set is reloaded meanwhile. Errors inside the C layer surface as the documented C++ exception carrying the right status and message, and every acquired resource is released exactly once on all paths including exceptional ones.",
  ["histories", "schedules", "fault_sequences"], "every order of creation, use, reload and destruction from several threads, and every failing allocation in the C layer below",
  "The base class tests destroy objects in one order, on one thread, and no read or allocation ever fails.",
  ["EngineBase.cpp", "ResultsBase.cpp", "MetaData.cpp", "Collection.hpp", "Exceptions.cpp", "EvidenceBase.cpp", "resource.c"], [("shared ownership of the manager, use counts on results", "EngineBase.cpp, ResultsBase.cpp")],
  observe=["object contents", "resource free callback", "exceptions thrown"])
p("C19", "Truncated or inconsistent data files are rejected without reading out of bounds",
  "When a data file is cut short at any point, its length changes before or while it is loaded or streamed, or an item in it states a wrong size, opening it or reading an item from it fails with a reported status or returns only bytes that lie inside the file or buffer. The library never reads outside the data it was given, never loops for ever, and after such a failure holds no memory or open file.",
  ["inputs", "fault_sequences", "crash_points"], "every truncation point and every time at which a file shrinks during loading or streaming",
  "The tests load only complete files that do not change.",
  ["collection.c", "file.c", "memory.c", "data.c", "dataset.c"], [("memory reader bounds", "memory.c MemoryAdvance"), ("read length checks", "collection.c")], observe=["status and exceptions", "memory accesses", "live allocations and handles"])
p("C25", "Configuration and evidence objects say what they were given, to any reader",
  "A required properties configuration, made from a list or from a comma separated string, gives the same names in order, count and membership answers however often and by however many threads at once it is read, and the C configuration it exposes keeps them unchanged. A configuration exposes to the C layer exactly the temporary directories that were set last, however often they are set, and each flag and setting that was given; an evidence object exposes exactly the recognised and relevant pairs it holds at that moment; address, date, metadata and collection configuration objects hold the values they were made from, or the documented invalid ones when made from nothing; reading a result value that is not there throws the exception of its reason, with the reason's text. When memory runs out the constructor or call fails with a C++ exception (or a null pointer where documented) and leaks nothing.",
  ["histories", "schedules", "fault_sequences"], "every sequence of sets and reads from any number of threads, and every failing allocation",
  "The tests read each configuration once, on one thread, and never set directories at all.",
  ["RequiredPropertiesConfig.cpp", "ConfigBase.cpp", "EvidenceBase.cpp"], [("names read without changing the string", "RequiredPropertiesConfig.cpp nextProperty"), ("directories mapped to the C structure", "ConfigBase.cpp mapTempDirectories")],
  observe=["names, counts and membership", "the exposed C structures", "live allocations"])
p("C26", "Requests that share a data set's headers and properties do not affect each other",
  "Structures made once from a data set and shared by all its requests (unique headers with their pseudo headers, available properties, overridable properties) are not changed by use: each of any number of concurrent requests gets, for its own evidence, exactly the answer it would get alone. Its evidence is iterated in order for the prefixes asked for, pseudo evidence is made from its own values in the order of precedence and only where every segment has a value (cut to the buffer it was given), its overrides and profile ids are its own, an IP address in it means the same whatever was parsed before and compares by its bytes, and the shared look-ups give the same answers throughout. If memory runs out in one request, that is reported to it and no other request is affected, and a request's storage can be reset and used again.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of any number of requests, every evidence they carry, and every failing allocation",
  "The tests make one set of evidence on one thread, with storage that is used once, and no allocation fails.",
  ["evidence.c", "pseudoheader.c", "headers.c", "overrides.c", "properties.c", "ip.c"], [("shared structures are only read", "headers.c, properties.c, overrides.c"), ("storage kept from request to request", "pseudoheader.c RemoveEvidence, overrides.c ValuesReset")],
  observe=["evidence iterated", "pseudo evidence", "overrides and profile ids", "look-ups", "live allocations"])
# --- properties outside this technique
def na(id, title, statement, files, mech):
    p(id, title, statement, ["inputs"], "every input", "Tests sample a handful of inputs.", files, [mech])
na("C20", "Evidence look-up honours prefixes, order and pseudo-headers",
   "Iterating evidence for a set of prefixes visits exactly the matching pairs in insertion order with their parsed values, and pseudo-evidence is the documented concatenation of the constituent evidence values of the highest-priority prefix.",
   ["evidence.c", "pseudoheader.c", "headers.c"], ("prefix table and iteration", "evidence.c"))
na("C21", "IP addresses parse to the right bytes and compare consistently",
   "Text is accepted as an IP address exactly when it is a valid IPv4 or IPv6 literal, yields its network-order bytes, and comparison of parsed addresses is the byte order.",
   ["ip.c"], ("byte parser", "ip.c"))
na("C22", "Portable floats and coordinates convert without loss",
   "Conversion between native floats and the stored portable format is exact in both directions for all finite values, infinities and zero, on every platform.",
   ["float.c", "coordinate.c"], ("bit field packing", "float.c"))
na("C23", "Required properties and overrides map names to indexes correctly",
   "Required property strings or lists resolve case-insensitively to exactly the known properties, and an override takes precedence exactly for the property it names.",
   ["properties.c", "overrides.c"], ("index table and name comparison", "properties.c"))
na("C24", "The red-black tree keeps order and balance",
   "After any sequence of inserts and deletes a search finds exactly the keys present, iteration is in key order and the height is logarithmic.",
   ["tree.c"], ("red-black rebalancing", "tree.c"))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
