#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook="no"):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": [observe]}})

prop("P01", "The persisted log is append-only, gap-free and read back exactly",
     "For every sequence of operations on a memory or file persister: accepted entries get consecutive indexes from 0 and strictly increasing timestamps, the head only moves forward and is never behind the last entry, and a rejected operation (stale or equal timestamp, wrong index, bad line) changes nothing. "
     "Every iteration, by index or by timestamp range, safe or 'unsafe' (raw lines), yields exactly the accepted entries of the requested range, in order, with the bytes that were published; an open iterator covers the range it was opened with. "
     "The two implementations are observably the same, and a file persister reopened (or a log copied through raw lines) shows the same state.",
     ["inputs", "histories"], "every history of publish / publish-raw / update-head / iterate / range / reopen / copy operations, every entry text and timestamp",
     "Tests run a few fixed short histories; ranges, head-only updates, interleaved iterators and reopening multiply into a space they do not touch.",
     ["blocks/persistence/file.h", "blocks/persistence/memory.h", "blocks/ss/persister.h"],
     [("FilePersisterImpl", "blocks/persistence/file.h"), ("MemoryPersister", "blocks/persistence/memory.h")],
     "Publish/UpdateHead results and exceptions, Size, LastPublishedIndexAndTimestamp, CurrentHead, Iterate*, IndexRangeByTimestampRange")
prop("P02", "A file log survives a crash at any byte and never opens as something else",
     "After a crash at any point of creating the file, publishing an entry or moving the head (any byte prefix of the line in flight, including an in-place head rewrite), opening the file either refuses with an exception or shows exactly the state before or after that operation; operations completed earlier are never lost, and a log that opened stays usable and reopenable. "
     "Opening an arbitrary file succeeds exactly for a well-formed log (consecutive indexes, increasing timestamps, signature only first and matching) and shows exactly its contents; otherwise it refuses with the exception of that class.",
     ["crash_points", "inputs"], "every byte position of every write of every history; every sequence of log lines (valid and invalid)",
     "A test does not kill the process between two bytes of a write, nor does it enumerate damaged files.",
     ["blocks/persistence/file.h"], [("ValidateFileAndInitializeHead", "blocks/persistence/file.h"), ("PersisterPublishImpl / PersisterUpdateHeadImpl", "blocks/persistence/file.h")],
     "bytes on disk after each operation; exception or contents when opened")
prop("P03", "Every stream subscriber sees every entry once, in order, in any schedule",
     "Under every interleaving of publishers, head updates, subscribers coming and going and the subscriber threads: a subscriber receives exactly the entries of its range (from the begin index or timestamp) in index order, none lost, duplicated or reordered, each with its own index and timestamp and a 'last' index not behind it; head updates it receives are increasing and never overtake undelivered entries. "
     "A subscriber that keeps up eventually receives everything published (no lost wakeup), termination requested by either side ends the subscription exactly once with the done callback after the last delivery, and destroying the scope or the stream waits for the callback in flight and never deadlocks.",
     ["schedules", "histories"], "every thread schedule and every history of publish/update-head/subscribe/terminate",
     "Tests see the few schedules the OS happens to produce; lost wakeups and torn reads need specific preemptions.",
     ["stream/stream.h", "stream/stream_impl.h", "blocks/ss/pubsub.h", "blocks/ss/signature.h", "bricks/sync/waitable_atomic.h", "blocks/persistence/memory.h", "blocks/persistence/file.h"],
     [("SubscriberThreadInstance", "stream/stream.h"), ("notifier", "bricks/sync/waitable_atomic.h")],
     "callbacks of the subscriber (entry, head, done, terminate) and publish results")
prop("P04", "At any moment exactly one party may publish into a stream",
     "A stream accepts entries only through its current publisher: after the publisher is taken away or borrowed elsewhere (BecomeFollowingStream, BorrowPublisher, moved Owned publisher) no other handle can publish, IsMasterStream tells the truth, and entries published by a former and a later owner never interleave or share an index. "
     "Taking the data authority waits for all borrowed publishers, and giving it back makes publishing possible again, in every schedule.",
     ["schedules", "histories"], "every history of owning/borrowing/moving/returning publishers, in every schedule",
     "Ownership races need two threads at specific points; tests move publishers sequentially.",
     ["stream/stream.h", "stream/stream_impl.h", "bricks/sync/owned_borrowed.h"],
     [("StreamPublisher / BecomeFollowingStream / BecomeMasterStream", "stream/stream.h")], "return value / exception of each publish attempt, stream contents")
prop("P05", "A replica is always a faithful prefix of the master stream",
     "However the bytes of the subscription response are cut into chunks and packets, and wherever and however often the connection breaks, a follower's log is at all times a prefix of the master's log with identical indexes, timestamps and contents, with a head that never exceeds the master's, and it resumes from where it stopped with nothing lost or duplicated. "
     "While the master is reachable the follower catches up; a malformed or mismatching response (schema, index, timestamp, garbage) never changes the follower's log.",
     ["schedules", "fault_sequences", "inputs"], "every fragmentation of the response, every disconnection point, every publish history",
     "Tests replicate over a loopback connection that delivers whole chunks and never breaks mid-line.",
     ["stream/replicator.h", "stream/pubsub.h", "stream/stream.h", "bricks/net/http/impl/server.h", "blocks/http/impl/posix_client.h", "blocks/http/chunked_response_parser.h"],
     [("RemoteSubscriberThread / StreamReplicator", "stream/replicator.h"), ("PubSubHTTPEndpoint", "stream/pubsub.h")], "entries and head of the follower vs. master")
prop("P06", "Flipping the master loses nothing and never leaves two masters",
     "When a follower takes over through MasterFlipController, every entry the old master accepted is in the new master, the old master accepts nothing any more, and afterwards exactly one stream accepts entries; the former master can follow the new one. "
     "A flip that is refused (wrong key, index/clock difference limits, unreachable or misbehaving master, already flipped) leaves master and follower as they were: same authority, same data, replication continuing.",
     ["schedules", "histories", "fault_sequences"], "every history of publishing, following, flipping (with every restriction) and failing",
     "Tests perform two or three scripted flips.",
     ["stream/replicator.h", "stream/stream.h"], [("MasterFlipController", "stream/replicator.h")], "result/exception of flips, publishes and log contents")
prop("P07", "A storage transaction is all or nothing",
     "For every sequence of mutations over any containers of a storage, a read-write transaction that throws, is rolled back, or whose follow-up throws before commit leaves every container (elements, row/column views, sizes, LastModified) and the journal exactly as before it began; a committed one leaves exactly the effect of its mutations. "
     "Inside a transaction all reads see its own earlier mutations; the result and the exception/rollback/commit status the caller gets is the truth about what happened.",
     ["programs", "histories"], "every program of Add/Erase/... operations across containers with every abort point, nested over every prior state",
     "Rollback must undo every interleaving of overwrite/erase/re-add on several containers; tests cover a few of them.",
     ["storage/storage.h", "storage/transaction_policy.h", "storage/base.h", "storage/container"],
     [("MutationJournal / Rollback", "storage/base.h"), ("Synchronous", "storage/transaction_policy.h")], "full container dumps before/after, transaction result")
prop("P08", "Storage containers always keep their views consistent",
     "For every history, each container behaves as the plain map its semantics names: dictionaries and matrices return exactly the elements added and not erased, row and column views list exactly the elements of that row/column (in key order when ordered), one-to-one and one-to-many evict exactly the conflicting elements, and Size, Empty, Has, operator[] and iteration agree. "
     "LastModified of a key is the time of its last mutation (also of its erasure), under any sequence of operations.",
     ["inputs", "histories"], "every history of operations for each of the eight container kinds, ordered and unordered",
     "Eviction in one-to-one overwrites two rows and two columns at once; the combinations are not enumerated by tests.",
     ["storage/container/dictionary.h", "storage/container/many_to_many.h", "storage/container/one_to_many.h", "storage/container/one_to_one.h", "storage/container/common.h"],
     [("Dictionary, ManyToMany, OneToMany, OneToOne", "storage/container")], "container API")
prop("P09", "The journal replays to exactly the storage in memory",
     "Every committed mutating transaction appends exactly one journal entry holding its mutations in order and its metadata, and a read-only, rolled back or throwing transaction appends none; so replaying the journal from scratch (another storage over the same stream, or the file reopened after any prefix of transactions) yields the same containers and the same LastModified as the live storage had at that point. "
     "A storage opened over existing data has replayed everything before it accepts its first transaction.",
     ["histories", "crash_points"], "every history of transactions and every journal prefix",
     "Tests compare a couple of hand-written histories.",
     ["storage/storage.h", "storage/persister/stream.h", "storage/base.h"], [("StreamStreamPersister", "storage/persister/stream.h")], "dump of the live storage and of the replayed one, journal entries")
prop("P10", "Concurrent storage transactions are serializable in journal order",
     "Under every schedule of read-only and read-write transactions on one storage (several threads, async results, graceful shutdown), transactions take effect one at a time: each read sees a state equal to some prefix of the journal, journal order is the order of effects, timestamps increase, and no transaction is lost or half visible. "
     "Every transaction future completes exactly once, and GracefulShutdown refuses new transactions after letting running ones finish.",
     ["schedules"], "every thread schedule of concurrent transactions",
     "Atomicity across threads is a property of all schedules.",
     ["storage/transaction_policy.h", "storage/storage.h", "storage/persister/stream.h"], [("Synchronous::Transaction", "storage/transaction_policy.h")], "results of transactions, journal, container dumps")
prop("P11", "A following storage mirrors its master and refuses writes until flipped",
     "A storage over a following stream applies exactly the journal entries that arrive, each once, in order and atomically (a read-only transaction never sees part of one), refuses every read-write transaction, and after becoming master accepts them with nothing applied twice. ",
     ["schedules", "histories"], "every history of journal entries, reads, writes and the flip, in every schedule",
     "The replay thread races with transactions; tests do not control it.",
     ["storage/persister/stream.h", "storage/storage.h"], [("replay subscriber", "storage/persister/stream.h")], "transaction results and dumps")
prop("P12", "The REST interface is a faithful view of the storage",
     "For every sequence of REST requests: GET returns exactly what the storage holds, POST/PUT/PATCH/DELETE change exactly the addressed record and are visible to all later requests, and the status code says what happened (200/201 on success, 404 for a missing record, 400 for a malformed body or mismatching key, 409/412 when Overwrite or If-Unmodified-Since forbids it); a request that is answered with an error changes nothing. "
     "Collections, row/column views and single records agree with each other, in each of the REST flavours (plain, simple, hypermedia); the pages of the hypermedia one are the elements asked for, and following its links leads through everything.",
     ["inputs", "histories"], "every request sequence over keys, bodies, headers and field kinds",
     "The product of verb x container kind x header x record state is far larger than the tests.",
     ["storage/api.h", "storage/api_types.h", "storage/rest/plain.h", "storage/rest/structured.h", "storage/rest/hypermedia.h"], [("RESTfulHandler", "storage/api.h")], "HTTP status and body, storage contents")
prop("P13", "The message queue delivers every accepted message once, in order",
     "Under every schedule, each message an MMQ accepts is handed to the consumer exactly once, in index order, with strictly increasing indexes and timestamps and its own payload; the publisher is told the index and timestamp its message really has. "
     "Destroying the queue delivers what was accepted first. With drop-on-overflow only the messages that found the buffer full are refused and exactly they are missing; without it publishers block until there is room and nothing is lost; nobody deadlocks.",
     ["schedules"], "every schedule of publishers and the consumer, every buffer size",
     "Needs the ring to be full and two publishers at specific points.",
     ["blocks/mmq/mmq.h"], [("MMQImpl", "blocks/mmq/mmq.h")], "Publish results and consumer calls")
prop("P14", "The priority queue delivers everything up to the head, in time order",
     "Under every schedule, MMPQ hands over exactly the messages published, each once, only when the head has reached their timestamp, and among those available always the earliest; equal timestamps keep publishing order. "
     "The head never goes back; nothing that is due is lost, also when the queue is destroyed.",
     ["schedules", "inputs"], "every schedule and every order of timestamps, including equal ones",
     "Out-of-order and equal timestamps racing with head updates.",
     ["blocks/mmq/mmpq.h"], [("MMPQImpl", "blocks/mmq/mmpq.h")], "consumer calls")
prop("P15", "A waiting thread is always woken by the change it waits for",
     "For WaitableAtomic under every schedule: accesses are mutually exclusive (no lost update), Wait returns only when its predicate holds at that moment under the lock (WaitFor also on timeout, with the result saying which), and every mutation through SetValue, SetValueIf, MutableUse, PotentiallyMutableUse or a mutable accessor wakes the waiters whose predicate became true. "
     "In the intrusive form destruction makes every Wait return false, waits until every registered client has left (touching nothing of the object afterwards), and later registrations yield a false client.",
     ["schedules"], "every schedule of mutators, waiters with and without timeout, clients and destruction",
     "A lost wakeup needs a notification between the check and the wait.",
     ["bricks/sync/waitable_atomic.h"], [("WaitableAtomic", "bricks/sync/waitable_atomic.h")], "values observed by waiters, return of Wait")
prop("P16", "An owned object outlives all its borrowers, in every schedule",
     "For Owned/Borrowed/Weak handles under every schedule and every history of creating, copying, moving, dereferencing and dropping them: the object is alive whenever a live handle is used, is destroyed exactly once, only after the owner and all borrowers are gone, the owner's destruction waits for all of them, makes every handle report itself invalid, and calls the callback of every BorrowedWithCallback registered at that moment exactly once, and of no other.",
     ["schedules", "histories"], "every schedule and history of handles",
     "Races between borrowing and destruction.",
     ["bricks/sync/owned_borrowed.h"], [("Owned, Borrowed, BorrowedWithCallback", "bricks/sync/owned_borrowed.h")], "lifetime events of the object and of handles")
prop("P17", "An HTTP request means the same however it is fragmented",
     "For every HTTP request (any method, headers, Content-Length or chunked body) and every way of cutting it into packets, the server parses the same method, path, headers and body; pipelined or following bytes are not mixed in. "
     "Whatever bytes a client sends, and wherever it disconnects, the server stays alive, answers malformed requests with an error or closes, and continues to serve other clients.",
     ["inputs", "fault_sequences"], "every byte stream and every fragmentation",
     "TCP on loopback hardly ever fragments in tests.",
     ["bricks/net/http/impl/server.h", "bricks/net/tcp/impl/posix.h", "blocks/http/impl/posix_server.h"], [("GenericHTTPRequestData", "bricks/net/http/impl/server.h")], "parsed request, response, later requests")
prop("P18", "Requests go to the handler registered for the longest matching path",
     "For every history of registering and unregistering handlers, a request is dispatched to the handler with the longest registered prefix of its path whose allowed number of URL path arguments matches, with exactly the remaining components as arguments, and otherwise gets 404; registering a taken path+arity throws and changes nothing. "
     "Handlers disappear when their scope does.",
     ["inputs", "histories"], "every set of routes and every path",
     "The combinations of overlapping prefixes and argument counts.",
     ["blocks/http/impl/posix_server.h", "blocks/http/types.h", "blocks/http/request.h"], [("FindHandler / DoRegister / UnRegister", "blocks/http/impl/posix_server.h")], "handler invoked and its arguments")
prop("P19", "HTTP responses arrive complete and unaltered",
     "For every status code, headers and body, sent whole or as any sequence of chunks, and however the bytes are fragmented on the wire, the client receives exactly that code and body (the chunks' concatenation, chunk boundaries preserved for the chunk-by-chunk client), and a truncated response is never reported as complete.",
     ["inputs", "fault_sequences"], "every response and every fragmentation or truncation",
     "Needs controlled fragmentation and truncation of the response.",
     ["bricks/net/http/impl/server.h", "blocks/http/impl/posix_client.h", "blocks/http/chunked_response_parser.h"], [("GenericHTTPRequestData / ChunkedResponse", "bricks/net/http/impl/server.h")], "client result")
prop("P20", "A stream served over HTTP returns exactly the requested range",
     "For every stream content and every combination of query parameters (i, since, recent, n, period, tail, stop_after_bytes, nowait, array, entries_only, checked, sizeonly, terminate) the response lists exactly the entries, in order, that these parameters select, each as 'idxts TAB entry', and ends when they say; with 'array' it is one well-formed JSON array.",
     ["inputs", "histories"], "every content and parameter combination",
     "The parameters interact; tests try them mostly one at a time.",
     ["stream/pubsub.h", "stream/stream.h"], [("PubSubHTTPEndpointImpl, ParsePubSubHTTPRequest", "stream/pubsub.h")], "HTTP response body")
prop("P21", "A RipCurrent pipeline delivers every message once, in order, then stops",
     "For every composition of blocks with | and + and every schedule, each message emitted or posted with an increasing timestamp is processed by the next block exactly once, in timestamp order, scheduled ones when time reaches them, each block's f() runs in one thread at a time, a message that is refused is reported to the error handler, and destroying the flow processes everything published before and terminates.",
     ["programs", "schedules"], "every composition and schedule", "The MMPQ between blocks races with destruction.",
     ["ripcurrent/ripcurrent.h", "blocks/mmq/mmpq.h"], [("SharedSequenceImpl", "ripcurrent/ripcurrent.h")], "messages seen by each block")
prop("P23", "Time never repeats or goes back, even across threads",
     "current::time::Now() is strictly increasing over all calls from all threads whatever the system clock does (constant, jumping backwards), in every schedule.",
     ["schedules", "inputs"], "every schedule and every clock history", "Tests call it from one thread with a well-behaved clock.",
     ["bricks/time/chrono.h"], [("EpochClockGuaranteeingMonotonicity", "bricks/time/chrono.h")], "returned timestamps")
prop("P24", "Line splitting does not depend on how the input is cut",
     "For every byte stream and every way of feeding it in pieces, StatefulGroupByLines hands over exactly the lines of the stream, in order, as soon as they are complete, and the unfinished last line exactly once at destruction if non-empty.",
     ["inputs"], "every byte string and partition", "Tests feed a handful of pieces.",
     ["bricks/strings/group_by_lines.h"], [("GenericStatefulGroupByLines", "bricks/strings/group_by_lines.h")], "callback arguments")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
