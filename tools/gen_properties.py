#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
TX, LK, ST, EN, PE, OB, VW, TR, EC, SRC = ("inc/Tecs_transaction.hh", "inc/Tecs_lock.hh", "inc/Tecs_storage.hh",
    "inc/Tecs_entity.hh", "inc/Tecs_permissions.hh", "inc/Tecs_observer.hh", "inc/Tecs_entity_view.hh",
    "inc/Tecs_tracing.hh", "inc/Tecs.hh", "src/Tecs.cc")

prop("C01", "Transactions see atomic snapshots: all of a commit or none of it",
 "Everything a transaction reads of the committed state (values of the components it locked, which entities exist, which components they have, entity lists, global components) comes from one single commit-consistent snapshot: for every other transaction, either all of its effects on what the reader locked are visible or none are. The snapshot does not change while the transaction is open, however many other transactions commit meanwhile.",
 ["schedules", "histories"], "all interleavings of any number of concurrent reading and writing transactions, all permission sets, all data sizes",
 "The test suite's threading tests run a handful of fixed thread programs under whatever schedule the OS picks; tearing needs a reader to interleave with the commit of several components, between two lock acquisitions or between two buffer swaps.",
 [TX, ST, LK], [("acquire-all-or-roll-back lock loop", TX+" Transaction::Transaction"), ("all commit locks taken before the first swap", TX+" Transaction::~Transaction"), ("double buffer", ST+" readComponents/writeComponents")],
 [("readers/writer", "lock word of one component", ST), ("readComponents", "committed buffer", ST)], ["values and lists returned to concurrent transactions"], "yield points in the lock and commit steps (TECS_VERIF_POINT) to steer schedules")

prop("C02", "Write access is exclusive: no two writers overlap and no update is lost",
 "At most one open transaction at a time holds write permission for a given component, and at most one may add and remove entities; a transaction with write permission starts from the latest committed value. Hence read-modify-write transactions never lose an update: N concurrent increments always add N, and the committed values of a component form one unbroken chain.",
 ["schedules", "histories"], "all interleavings, all overlapping write/add-remove permission sets, any number of threads",
 "The tests sum up counters of a few threads on one machine's natural timing; a lost update or overlap needs two acquisitions or a release and an acquisition to interleave within a few instructions.",
 [ST, TX], [("writer lock word compare-and-swap", ST+" WriteLock/WriteUnlock"), ("write buffer re-synchronised before the write lock is released", TX+" Transaction::~Transaction")],
 [("writer", "WRITER_FREE/LOCKED/COMMIT", ST)], ["unique stamps and version counters carried in component values"], "yield points in the lock and commit steps")

prop("C03", "Uncommitted writes are isolated; own reads and previous-value reads are right",
 "Until a transaction ends, nothing it did can be seen by any other transaction. Inside the transaction, reading through its lock (or a lock derived from it) shows its own writes where it has write permission, while previous-value queries and locks made read-only keep showing the state as it was when the transaction started.",
 ["histories", "schedules", "programs"], "all operation sequences inside a transaction, all lock derivations, observers of every permission set",
 "Tests check a few single-value cases in one thread; the property ranges over every operation sequence, every mixture of write, remove, re-add, destroy and every kind of derived lock.",
 [LK, EN, TX, ST], [("choice of read or write buffer by permission bits", EN+" Get/Has/Exists, "+LK+" Get/Has/EntitiesWith"), ("previous-state accessors use the committed buffer", EN+" GetPrevious/Had/Existed"), ("ReadOnlySubset clears the write bits", LK)],
 None, ["reads in the same transaction, through derived locks and from a second thread while it is open"])

prop("C04", "Ended transactions are visible to every later one and never revert",
 "Once a transaction that wrote something has ended, every transaction that starts afterwards, on any thread, sees all its effects unless overwritten by a later commit; transactions ordered in real time never appear reordered. Committed effects never disappear, and no later transaction (whatever its permissions, even if it changes nothing) brings an older value back.",
 ["histories", "schedules"], "all sequences and interleavings of commits of different permission kinds (write, write-all, add/remove, no-op), all entity counts and densities",
 "Buffers are swapped and then copied by several different strategies depending on permissions and density; a missed copy shows only two commits later and on specific shapes the tests do not build.",
 [TX, ST], [("swap then copy back of every changed component", TX+" Transaction::~Transaction"), ("sparse copy by valid entity or bulk copy", TX)],
 [("readComponents/writeComponents", "must be equal outside a write transaction", ST)], ["values read by transactions that start after another one has ended"], "yield points in the commit steps")

prop("C05", "The state evolves exactly as the operations say, and nothing else changes",
 "After any sequence of transactions the set of entities, their components and all values are exactly those obtained by applying the operations one after another to a simple map: creating, setting, overwriting, removing components, destroying entities, modifying through references. Entities and components not touched by an operation keep their value and existence, a removed component that is added again starts from what is set (or a default value), and repeated, redundant or empty transactions change nothing.",
 ["inputs", "histories", "programs"], "all sequences of operations and transactions of every permission set, any number of entities (across storage growth), any component types",
 "Tests check fixed scripts; the state space of operation sequences (remove/re-add/destroy/reuse in one transaction, growth during a transaction, sparse against dense copies) is unbounded.",
 [TX, LK, EN, ST], [("in-place updates of the write buffer", EN+" Set/Get/Unset/Destroy"), ("rebuild of entity lists at commit", TX+" PreCommitAddRemove*"), ("growth of all storages together", LK+" NewEntity/AllocateComponents")],
 None, ["full dump of the state through the public API after each transaction, against a reference model"])

prop("C06", "An entity handle refers to one entity for ever; stale handles never match",
 "Every created entity gets a handle different from that of every entity created before it (alive or destroyed, in this transaction or an earlier one) and from those of other ECS instances. A handle to a destroyed entity never again counts as existing, having components or being accessible, even when its slot has been reused, and creation and destruction reuse slots without ever handing out one that is in use.",
 ["histories", "inputs"], "all create/destroy/reuse histories within the range of the generation counter, several instances in one process",
 "Tests reuse a slot a few times; the property quantifies over all interleavings of creation, destruction, growth and commits and over all retained handles.",
 [LK, EN, TX, EC], [("generation and instance id in the handle", EN), ("free list rebuilt at commit with the next generation", TX+" PreCommitAddRemoveMetadata"), ("NewEntity", LK)],
 [("freeEntities", "slots that may be handed out", EC)], ["returned handles; existence queries with every handle ever returned"])

prop("C07", "Entity lists contain exactly the live entities, each once",
 "In a transaction's view of the world, the list of all entities is exactly the set of existing entities and the list for a component is exactly the set of entities that have it: no entity missing, none twice, none stale. Within a transaction that is adding and removing, entries removed in that transaction appear as null entities and added ones appear in it, and the list of previous entities always equals the committed one.",
 ["histories", "inputs"], "all histories of adds, removes, destroys and re-adds within and across transactions, including modification while iterating a list",
 "Tests compare lists after a few scripted changes; lists are maintained incrementally in a transaction by index bookkeeping and rebuilt at commit, so errors need particular sequences (remove then re-add, growth, reuse, iterate-and-destroy).",
 [LK, EN, TX], [("incremental lists with index table", LK+" NewEntity/RemoveComponents; "+EN+" Set/Get/Destroy"), ("rebuild at commit", TX+" PreCommitAddRemove*")],
 [("validEntityIndexes", "position of each entity in the list", ST)], ["entity lists of every transaction"])

prop("C08", "Observers receive every committed change exactly once, in commit order",
 "For each commit made while an observer is registered, the observer receives exactly one event for every entity (or component) that the commit added and one for every one it removed, compared with the previous commit, with the right entity and, for components, the added value or the last committed value of the removed one; it receives nothing else. Events of different commits arrive in commit order; changes undone inside one transaction and uncommitted changes give none; each observer has its own queue, and a stopped observer receives nothing more while the others go on.",
 ["histories", "schedules"], "all histories of adding/removing transactions, any number of observers starting and stopping at any point, polls from any transaction, entities and global components",
 "Tests check single adds/removes; exactly-once across slot reuse, same-transaction cancel-outs, several observers and concurrent committers cannot be sampled by a few cases.",
 [TX, OB, EC, LK], [("old/new metadata diff at commit", TX+" PreCommitAddRemove*"), ("per-observer queues appended under the commit lock", EC+" ObserverList::Commit"), ("Watch/StopWatching", LK)],
 None, ["events polled by each observer"], None)

prop("C09", "Transactions never deadlock: every one starts and ends",
 "Whatever permissions concurrent transactions on one instance ask for, and in whatever order their locks collide, as long as every transaction body finishes, every thread eventually gets its transaction started and ended: no cyclic wait, no missed wake-up, no spinning for ever. A waiting thread is woken when what it waits for becomes free.",
 ["schedules", "configurations"], "all interleavings of lock acquisition, roll-back, commit, release and wake-up for any set of transactions, with blocking (C++20) and spinning (C++17) waiting",
 "A deadlock or lost wake-up needs a particular interleaving inside the lock steps; the test run either passes by luck or hangs.",
 [TX, ST], [("roll back when a lock is not immediately available, block only while holding nothing", TX+" Transaction::Transaction"), ("notify after each release", ST)],
 None, ["threads that are blocked when no other thread can run"], "yield points in the lock steps, wait and wake-up calls under the scheduler's control")

prop("C10", "Transactions only wait when permissions really conflict",
 "Transactions that only read what others read or write never wait for an open (not yet ending) writer, and an open reader never delays the start or body of a writer; transactions writing different components run at the same time, and reading transactions run at the same time. A transaction that ends without having written a component it could write does not wait for that component's readers.",
 ["schedules", "configurations"], "all pairs of permission sets and all subsets of components actually written; bounded progress: the unblocked transaction completes while the other stays open",
 "Tests have two or three hand-written concurrency cases; the matrix of permission sets and write subsets is large, and excess locking leaves results correct.",
 [TX, ST], [("readers and one writer may overlap until commit", ST+" ReadLock/WriteLock"), ("untouched write locks and read locks released before the commit", TX+" Transaction::~Transaction")],
 None, ["whether a second transaction completes while the first is held open"])

prop("C11", "A commit waits only for readers already inside, never for later ones",
 "When a writing transaction ends, it waits for the transactions currently reading what it wrote, and new readers of those components wait until the commit is done; so the commit completes as soon as the readers that were already inside finish, however many readers keep arriving. Once a commit is done, waiting and new readers proceed and see it.",
 ["schedules"], "all arrival patterns of overlapping readers; bounded progress counted in reader hand-overs, not in time",
 "Needs an endless relay of overlapping readers around an ending writer; the tests have none, and starvation leaves every result correct.",
 [ST, TX], [("commit intent announced before waiting for readers", ST+" CommitLock/ReadLock")],
 None, ["number of reader hand-overs until the writer has ended"])

prop("C12", "Concurrent use through transactions is free of data races",
 "Programs whose threads access an instance only through their own transactions and the permissions these hold contain no data race: two threads never access the same memory without ordering, one of them writing, neither in the library's own bookkeeping nor in component values. Everything a transaction did happens-before whatever a later transaction that sees its effects does.",
 ["schedules", "programs"], "all interleavings and all permission sets, adding/removing, observers, global components, instance set-up by one thread and use by others",
 "The stable tests run without a race detector, and a missing or weakened memory order never shows up as wrong results on x86.",
 [ST, TX, EC], [("acquire/release on the lock words", ST), ("atomic id counters, thread-local nesting list", SRC)],
 None, ["ThreadSanitizer's happens-before analysis of every access"], "yield points in the lock and commit steps")

prop("C13", "No memory error, undefined behaviour or leak for any valid use",
 "No valid sequence of transactions and operations makes the library read or write out of bounds, use freed or uninitialised storage, overflow, or leak, including growth of storage during a transaction, iterating a list while changing it, destroying through a reference into a list, and tearing an instance down. In the default checked mode this also holds for invalid handles, which are rejected instead.",
 ["inputs", "histories", "programs"], "all valid operation sequences, plus invalid handles in checked mode; trivially and non-trivially copyable component types",
 "The stable tests run without sanitizers on fixed scripts; out-of-bounds accesses inside a vector's capacity do not crash.",
 [EN, LK, TX, VW, OB], [("bounds and generation checks", EN), ("storages resized together", LK+" NewEntity"), ("index copied before list entries are cleared", EN+" Unset/Destroy")],
 None, ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and standard library assertions under generated workloads"])

prop("C14", "Invalid accesses are rejected with an exception and change nothing",
 "In checked mode, using a null, stale, foreign or out-of-range entity, or a component the entity (or the world, for a global one) lacks without permission to add it, throws and neither returns data nor changes any state; existence queries answer false instead. Valid operations never throw, and after an exception the transaction and the instance remain fully usable and consistent.",
 ["inputs", "histories"], "all handles (null, stale, of other instances, forged indices), all operations, all permission sets, all points of a transaction",
 "Tests try a few invalid calls; the property is about every operation, each kind of bad handle, and the state afterwards.",
 [EN, LK, VW], [("index, generation and component checks before any effect", EN+" Get/Set/Unset/Destroy/GetPrevious"), ("the same for global components", LK)],
 None, ["exception or not, and full state comparison afterwards"])

prop("C15", "Nested transactions on one instance are refused, all others allowed",
 "Starting a transaction on an instance for which the same thread already has one open throws and leaves the open one, and the thread, unharmed; as soon as it has ended, a new one can be started. Transactions of one thread on different instances, and of different threads, are never refused (up to the documented number per thread), in whatever order they end, and transaction ids are unique and increase in each thread.",
 ["histories", "inputs"], "all nesting and ending orders over several instances and threads, including failed starts and locks that outlive the starting scope",
 "Tests nest once; the property covers every order of starting and ending over many instances and repeated refusals.",
 [TX, SRC], [("thread-local list of instances with an open transaction", TX+" BaseTransaction"), ("transaction id counter", SRC)],
 [("activeTransactions", "instances open in this thread", SRC)], ["exception or not at each start; ids returned"])

prop("C16", "Derived locks never grant more permissions than their source holds",
 "A lock can be derived from another, statically or by a run-time request, exactly when the permissions asked for are contained in those the source transaction holds (write includes read, add/remove includes everything); a request for more is refused and never yields a usable lock. A derived lock acts on the same transaction: it sees and makes the same changes, and one made read-only can be upgraded by nothing derived from it.",
 ["programs", "inputs"], "all pairs of permission sets and all derivation chains (narrowing, read-only, dynamic, lock types used as permissions)",
 "Tests try a dozen conversions; the permission lattice over several components with every spelling of a set has thousands of pairs.",
 [LK, PE], [("subset computation over permission lists", PE+" is_lock_subset, is_*_allowed"), ("run-time permission bit sets", LK+" DynamicLock")],
 None, ["constructibility and run-time results over the permission matrix, and effects made through derived locks"])

prop("C17", "A transaction lasts until its last lock is gone and commits exactly once",
 "A transaction stays open, holding its permissions, as long as any copy of its lock or any lock derived from it exists; it commits exactly once, when the last of them goes away, in whatever order they go and also when the scope is left by an exception. Until then nothing is visible outside; after that everything is released, and the use count tells the number of live locks.",
 ["histories", "schedules", "programs"], "all orders of creating, copying, deriving and releasing locks, across scopes, containers and exceptions",
 "Tests release locks in scope order; the property covers all release orders and what other threads can do meanwhile.",
 [LK, TX], [("shared ownership of the transaction by its locks", LK+" base"), ("commit in the destructor", TX+" Transaction::~Transaction")],
 None, ["visibility and lock availability to another thread before and after each release"])

prop("C18", "Entity views behave as bounded windows on the list they were made from",
 "A view has exactly the elements of its window: indexing, forward, backward and random-access iteration, reverse iteration, size, emptiness and sub-views (also of sub-views, with or without count, oversized counts clamped) all agree with the same operation on the corresponding slice. Access outside the window throws in checked mode, and views taken before entities are added keep their elements.",
 ["inputs"], "all list lengths, window starts and lengths, nesting of sub-views, iterator walks",
 "Tests use views only for simple loops and one sub-view; off-by-one errors show only in untested combinations.",
 [VW], [("start/end indices and bounds checks", VW)], None, ["element sequences produced by each access path, against a plain slice"])

prop("C19", "Entity ids are faithful values: round trip, order, equality, hashing, text",
 "An entity converted to an integer and back is the same entity, distinct entities give distinct integers, and index, generation and instance are recovered exactly; only the null entity is false. Equality, ordering and hashing agree with each other (equal ids hash equally, the order is a strict total order), and the textual form identifies the id.",
 ["inputs", "configurations"], "all index, generation and instance values, all id type configurations",
 "Tests print and compare a few small ids; bit packing errors appear at boundary values and with other id types.",
 [EN], [("bit packing of index, generation and instance", EN)], None, ["results of the conversions and comparisons over boundary and random values"])

prop("C20", "Global components: one value per instance, with the same guarantees",
 "A global component exists at most once per instance, independent of any entity; it exists exactly when it has been set (or got for writing) with add/remove permission and not been unset since. Setting, reading, previous values, removal, isolation, visibility after commit, events and rejection of access while missing follow the same rules as for components of entities, and entity operations never touch it.",
 ["histories", "inputs"], "all sequences of set/get/unset of several global components within and across transactions of all permission kinds, mixed with entity operations",
 "Tests set and unset one global component in a few steps; its existence bits live in separate state that is committed separately.",
 [LK, TX, EC], [("separate read/write existence bits", EC+" globalReadMetadata/globalWriteMetadata"), ("Lock::Get/Set/Unset/Has/Had", LK), ("commit of globals", TX+" PreCommitAddRemove, ~Transaction")],
 None, ["reads, queries and events of global components against a model"])

prop("C21", "Every build configuration behaves the same on valid programs",
 "For a valid program, results do not depend on the build: unchecked mode, C++17 or C++20 waiting, the allocation batch size, the id type widths (while in range), header-only use, performance tracing and optimisation level only change speed and checks. The same sequence of transactions gives the same entities, values, lists and events in each of them.",
 ["configurations", "inputs"], "the documented configuration options and combinations of them, all valid operation sequences within the id range",
 "The test suite is built in two configurations and checks fixed scripts; option-specific code paths (unchecked branches, spinning waits, small id types) are mostly never run.",
 [EN, LK, ST, TX, TR, "CMakeLists.txt"], [("#ifdef TECS_UNCHECKED_MODE / __cpp_lib_atomic_wait / TECS_HEADER_ONLY / tracing branches", EN+", "+LK+", "+ST+", "+TX)],
 None, ["step-by-step results of the same programs in each configuration"])

prop("C22", "ECS instances are independent of each other",
 "Operations, locks and events on one instance have no effect on another: a thread may have transactions on several instances open at once, an entity of one instance does not exist in any other, and observers see only their own instance. Each instance has its own identity, which is part of the entities it creates, and destroying one leaves the others intact.",
 ["histories", "schedules"], "all interleavings of operations on several instances of the same or different type in one or several threads",
 "Tests use a second instance once; the property quantifies over interleaved histories and mixed-up handles.",
 [EC, EN, TX, SRC], [("per-instance storage", EC), ("instance id in handles", EN), ("thread-local list keyed by instance", TX)],
 None, ["state and events of each instance after operations on the others; foreign handles"])

prop("C23", "Performance traces record what happened, in full and in order",
 "With tracing enabled, a stopped trace holds for each transaction of the traced period a start and an end event, and for each component (and the metadata) exactly the lock, commit and unlock events of the transactions that used it, with the right thread, times that never decrease within a thread, and a legal order: commits lie inside the writer's lock and exclude every reader, writers exclude each other, and every lock is released. The trace is capped at its documented size, a new trace starts empty, and the saved table contains exactly the recorded events under the component's names. The external tracing macros are invoked in the transaction's own thread once each, in the order starting, started, ending, ended, with the name of its permissions.",
 ["histories", "schedules"], "all transaction mixes and schedules traced between a quiescent start and stop",
 "The tracing code is off in the stable tests; its example run is not checked.",
 [TR, ST, TX, EC], [("event ring with an atomic index", TR+" TraceInfo"), ("trace calls in the locks", ST), ("CSV writer", TR+" SaveToCSV")],
 None, ["trace spans and CSV text, against the transactions the harness ran"])

prop("C24", "Component values are destroyed when removed and never resurrected",
 "Objects stored in components live exactly as long as they should: after the transaction that removed or overwrote a value (or destroyed its entity) has ended and events carrying it have been consumed, the library holds no copy of it, and while a component exists its value is never lost. Destroying the instance destroys all values exactly once, and every copy the library makes is eventually destroyed.",
 ["histories", "inputs"], "all histories of set/overwrite/remove/destroy/re-add through every commit path, for components that own resources",
 "Tests use plain data almost everywhere; leftover copies in one of the two buffers or in queues are invisible to value comparisons.",
 [TX, LK, EN], [("removed values reset in the write buffer and copied over the read buffer at commit", LK+" RemoveComponents; "+TX)],
 None, ["instance counts and reference counts of tracked component values at quiescent points"])

prop("C25", "Operations without the permission for them do not compile",
 "A program that reads or writes a component, or adds or removes entities or components, through a lock that lacks the permission is rejected by the compiler, and every operation the lock permits compiles. This holds for each operation and each way of spelling permissions.",
 ["programs"], "all programs", "Tests only contain programs that compile.",
 [EN, LK, PE], [("static_assert on permission traits", EN+", "+LK)], None, ["compiler diagnostics"])

with open(OUT, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
