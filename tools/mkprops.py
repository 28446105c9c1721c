#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the text is easy to review).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
S="streams/"
p("C01","Committed offsets cover exactly the completed prefix of each partition",
 "Whenever a transaction of an event source commits, the resume position it records for each source partition in it is exactly one past the highest-offset event of that partition in the transaction, and every event it contains has been completed by the application by then. A transaction holding an event that is still incomplete is not committed, and an interjection never contributes a position.",
 ["schedules","histories"],"All assignments of events and interjections to partitions and transactions, all completion orders, all interleavings of forwarding, producing and committing.",
 "The end-to-end tests need a Kafka broker and are skipped; none controls when an event completes relative to the commit.",
 [S+"eos_producer.go",S+"event_context.go",S+"commit_log.go"],
 [("waits for each event and writes one commit record per partition",S+"eos_producer.go finalizeEventContexts/commit"),("offset+1",S+"commit_log.go commitRecord")],
 [("currentPartitions","events of the open transaction by partition",S+"eos_producer.go producerNode")],
 ["records handed to the Kafka client on the commit log topic","EndTransaction(commit) calls"],"Kafka client calls are intercepted in an overlay copy of the client library; nothing in the repository changes")
p("C02","Forwarded records and state changes are produced exactly once with their event",
 "Every record an event or interjection forwards, and every state change it records, is handed to Kafka exactly once, inside the same transaction that carries that event's resume position. State changes go to the state topic on the event's own partition number; without a state topic they are dropped, never misrouted.",
 ["schedules","histories"],"All numbers of forwarded records and changes per event, all partitions, all interleavings of producing and committing across the pool.",
 "Broker-backed tests are skipped and only look at final counts for one schedule.",
 [S+"eos_producer.go",S+"event_context.go"],
 [("direct produce when the transaction owns the partition, buffering otherwise",S+"eos_producer.go ProduceRecord"),("buffer release on ownership transfer and at commit",S+"eos_producer.go flushPartition/flushRemaining"),("state change routing",S+"event_context.go RecordChange")],
 [("recordsToProduce","records waiting for the partition to be handed over",S+"eos_producer.go")],
 ["Produce calls on the transactional client that owns the event"],"client overlay")
p("C03","Output of a source partition reaches Kafka in event order across transactions",
 "For any one source partition, the records of one transaction are handed to Kafka in the order in which they were forwarded, and across transactions they are handed over in the order of the events, even when the events are spread over several concurrently open transactions. A later transaction hands over nothing for a partition before the earlier transaction holding that partition's events has committed.",
 ["schedules","histories"],"All interleavings of forwarding, producing, committing and handing over between at least three pooled transactions.",
 "Ordering across pooled transactions depends on goroutine interleaving; tests run one schedule and need a broker.",
 [S+"eos_producer.go"],
 [("partition ownership",S+"eos_producer.go partitionOwners"),("ordered ownership transfer",S+"eos_producer.go relinquishOwnership")],
 [("owners","which transaction may produce for a partition",S+"eos_producer.go partitionOwners")],
 ["order of Produce calls relative to EndTransaction calls"],"client overlay")
p("C04","A failed transaction never counts as committed and fails the consumer",
 "If beginning, producing any record of, flushing, or ending a transaction fails, that transaction is not reported as committed: its events' offsets are not marked and its records' failure is not hidden by a successful commit. The error reaches the transaction error handler, and unless the handler answers Continue the source becomes unhealthy and no later transaction commits.",
 ["fault_sequences","schedules"],"Every choice of failing client call, every error-handler answer, every interleaving of the failure report with the commit.",
 "No test injects client failures.",
 [S+"eos_producer.go",S+"source.go",S+"error_handling.go"],
 [("commit error propagation",S+"eos_producer.go commit/commitLoop"),("asynchronous produce errors",S+"eos_producer.go produceKafkaRecord"),("failing the source",S+"source.go fail")],
 (),["EndTransaction(commit) calls","MarkCommitRecords calls","TxnErrorHandler calls","Source.State()"],"client overlay")
p("C05","Transactions respect the configured limits and none is left uncommitted",
 "A transaction accepts no further event once its event count or record count has reached the configured maximum, at most the configured number of transactions wait for commit, and once input stops every accepted event is committed after the batch delay. An exactly-once configuration outside its documented ranges is rejected before anything is consumed; an empty one means the documented defaults.",
 ["configurations","schedules","histories"],"All pool sizes, pending counts, target and maximum sizes in small ranges, all bursts of events and of forwarded records, all timer firings; all configuration values for validation.",
 "Batch limits only bind under load and depend on when asynchronous records arrive; tests do not reach them.",
 [S+"eos_producer.go",S+"eos_config.go"],
 [("flush decision",S+"eos_producer.go tryFlush/shouldTryFlush/shouldForceFlush"),("validation",S+"eos_config.go validate/IsZero")],
 (),["events per committed transaction","panic on construction"],"client overlay")
p("C06","A partition's events are processed once, in offset order, one at a time",
 "For one assignment of a partition, the application's handler is invoked for its records in increasing offset order, never for two of them concurrently and never twice for the same offset. Records below the resume position or already handled are skipped, and every other received record is handled.",
 ["inputs","schedules","histories"],"All record batches with arbitrary offsets (stale, duplicate, nil entries), all resume positions, all interleavings of fetching, forwarding and completing.",
 "Needs a broker in the existing tests; stale and duplicate deliveries are never produced.",
 [S+"partition_worker.go",S+"source_consumer.go"],
 [("stale-record filter",S+"partition_worker.go scheduleTxnAndExecution"),("single worker loop",S+"partition_worker.go work")],
 [("highestOffset","next offset to handle",S+"partition_worker.go")],
 ["handler invocations"],"client overlay")
p("C07","Revocation stops a partition cleanly: nothing new starts, hangs or crashes",
 "Once a partition is revoked, no buffered or newly fetched record that had not been accepted into a transaction is processed or committed. Whatever was in flight still completes before the partition is reported revoked, the worker terminates, and neither fetching, interjecting, nor asynchronous completion panics or blocks forever because of the revocation.",
 ["schedules","crash_points"],"Revocation at every point of fetching, forwarding, processing, asynchronous completion and commit; all buffer fill levels in small bounds.",
 "Revocation during load depends on goroutine timing; no unit test revokes a partition.",
 [S+"partition_worker.go",S+"source_consumer.go",S+"eos_producer.go"],
 [("revocation wait",S+"partition_worker.go pushRecords/waitForRevocation"),("skipping revoked events",S+"eos_producer.go doForwardExecutionContexts")],
 [("revocationWaiter","events not yet finished",S+"partition_worker.go")],
 ["handler invocations after revocation","panics and blocked goroutines"],"client overlay")
p("C08","Interjections run serialized with events, keep recurring and always answer",
 "An interjection runs on its partition's worker, never concurrently with an event or another interjection of that partition, and its effects are part of a transaction like an event's. A scheduled interjection is scheduled again after each completed run, at an interval within the configured jitter; a one-off interjection's result channel is always answered: closed after it ran, or an error if the partition is not assigned, not ready, or revoked first.",
 ["schedules","inputs"],"All interleavings of interjections with events, completion modes (immediate or asynchronous), revocation points, and all intervals and jitters.",
 "Timer and revocation races are not reachable from unit tests.",
 [S+"interjection.go",S+"partition_worker.go",S+"source_consumer.go"],
 [("scheduling",S+"interjection.go tick/timerDuration"),("one-off dispatch",S+"source_consumer.go interject"),("execution",S+"partition_worker.go handleInterjection")],
 (),["interjector invocations","returned channels"],"client overlay")
p("C09","The commit log restores the exact resume position of every partition",
 "For any topic, partition and offset, the entry written at commit decodes to that same partition and to the offset plus one, is routed to a valid commit-log partition that depends only on the source partition, and the last entry read for a partition determines its resume position. A newly assigned partition waits until the commit log has been read up to that moment and then starts consuming at exactly that position, or at the default when there is none.",
 ["inputs","histories","schedules"],"All topics up to a length bound, all non-negative partitions and offsets, all commit-log partition counts, all sequences of entries and markers.",
 "No test exercises the encoding or the marker synchronisation.",
 [S+"commit_log.go",S+"source_consumer.go",S+"partition_worker.go"],
 [("encoding",S+"commit_log.go commitRecord/ReceiveChange"),("synchronisation marker",S+"commit_log.go syncCommitLogPartition"),("starting offset",S+"source_consumer.go adjustOffsetsBeforeAssign")],
 [("watermarks","resume position by partition",S+"commit_log.go")],
 ["start offset handed to the client","first record processed"],"client overlay")
p("C10","The async job scheduler is serial and FIFO per key and finishes every job once",
 "For each key, jobs run one at a time in the order they were scheduled, with at most the configured number of jobs running overall. Every job accepted while running is processed exactly once and its event then gets exactly one completion carrying the job's key, value and error; scheduling after shutdown never reports an unprocessed job as complete and never blocks forever.",
 ["schedules","histories","configurations"],"All interleavings of schedulers and workers, all key patterns, queue depths, concurrency and key limits in small bounds.",
 "The existing ordering test runs one workload on one schedule; lost or stuck jobs need specific interleavings.",
 [S+"async_scheduler.go",S+"async_item_queue.go"],
 [("per-key queue",S+"async_item_queue.go"),("worker hand-over",S+"async_scheduler.go scheduleItem/releaseWorker")],
 [("workerMap","active keys",S+"async_scheduler.go"),("size","queued plus pending items",S+"async_item_queue.go")],
 ["processor calls","AsyncJobComplete calls"])
p("C11","Scheduler limits hold jobs back; changing them loses or duplicates no job",
 "Raising or lowering the maximum number of concurrent keys or the queue depth while jobs are queued or running leaves every accepted job processed exactly once and in per-key order, and never deadlocks the scheduler. The limits in force hold scheduling back: no more keys than the limit (never less than the concurrency) have accepted jobs which have not ended, nor has a key more of them than its queue is deep, and fewer are accepted without waiting; a new depth applies to keys that become active after the change.",
 ["schedules","histories","configurations"],"All sequences of limit changes in small bounds, interleaved with scheduling and processing.",
 "No test changes limits under load.",
 [S+"async_scheduler.go"],[("channel resize",S+"async_scheduler.go SetMaxConcurrentKeys/ensureWorkerChannelCapacity"),("queue depth",S+"async_scheduler.go SetWorkerQueueDepth/grabWorker")],
 (),["processor calls","AsyncJobComplete calls"])
p("C12","The async batcher keeps its limits and key order and completes each group once",
 "The batch executor never receives more than the maximum batch size of items, never runs more than the maximum number of batches concurrently, never has the same key in two executing batches, and receives a key's items in the order they were added. Every item is executed exactly once, and each group's callback runs exactly once, after all of its items were executed; a group without items still completes, after earlier items of its key, and groups of one key complete in the order they were added. A batch is executed once it is full, and no later than the configured delay after its first item.",
 ["schedules","histories","configurations"],"All interleavings of adds, timer firings and executions; all key patterns, batch sizes and concurrency in small bounds.",
 "The existing tests use one workload and one schedule.",
 [S+"async_batcher.go"],[("assignment of keys to executors",S+"async_batcher.go asyncExecutorFor/addToExecutor"),("pending items",S+"async_batcher.go flushPendingItems"),("completion count",S+"async_batcher.go completeItem")],
 [("assignments","key to executor",S+"async_batcher.go"),("pendingItems","items that could not be placed",S+"async_batcher.go")],
 ["executor calls","callbacks"])
p("C13","A batch produce completes its event exactly once, after all of its records",
 "Producing a batch hands every record to Kafka exactly once, to its own topic or else the destination's default, and completes the event exactly once after the last acknowledgement, with each record's own error visible to the callback. This holds for every batch size including zero, every acknowledgement order and with or without a callback; records go back to the pool only after the callback, and a synchronous produce returns exactly the error of its record.",
 ["fault_sequences","schedules","inputs"],"All batch sizes in small bounds, acknowledgement orders and errors.",
 "Needs a broker in existing tests; partial failure is never injected.",
 [S+"producer.go"],[("pending count",S+"producer.go recordComplete"),("callback",S+"producer.go executeCallback")],(),["Produce calls","callbacks"],"client overlay")
p("C14","A rebalance never leaves a partition unowned or owned twice",
 "For every reported group state with at least one active member, the incremental balancer's plan gives every partition of the topic exactly one owner among the group's members: partitions nobody owns go to an active member, conflicting ownership claims are resolved to a single owner, and no partition the topic does not have is assigned. The only partitions missing from the distributed assignment are those being taken from their current owner.",
 ["inputs","configurations"],"All group states in small bounds: member counts, statuses, owned, preparing and ready sets (including stale, conflicting or malformed reports), partition counts.",
 "No unit test covers the balancer; broker-backed ones are skipped and see only ordinary states.",
 [S+"incr_rebalancer.go",S+"group_state.go"],[("unassigned distribution",S+"group_state.go distributeUnassigned"),("scheduled moves",S+"group_state.go deliverScheduledPartitionMoves"),("plan",S+"incr_rebalancer.go balanceTopic/Balance")],
 [("groupState","ownership, preparing and ready sets",S+"group_state.go")],["sync assignments produced for the group"])
p("C15","Partitions move one at a time and only to members that have prepared for them",
 "A partition that has a live owner is only taken from it in a rebalance in which another active member reports itself ready for that partition; otherwise it stays where it is. At most one new partition per rebalance is scheduled to be prepared, none while another is being prepared or handed over, and only by an active member that does not own it.",
 ["inputs","configurations"],"All group states in small bounds and all random choices.",
 "Depends on rare combinations of reported sets; no unit test covers it.",
 [S+"incr_rebalancer.go",S+"group_state.go"],[("budget",S+"group_state.go balance/schedulePartitionMoves"),("donation",S+"group_state.go donatePartition/instructActiveMemberToPrepareFor")],(),["sync assignments and instructions produced for the group"])
p("C16","Leaving members drain, and the group settles into a balanced assignment",
 "While any member that is leaving still owns a partition and nothing is in transit, the next rebalance schedules one of its partitions to move to an active member, and no partition is ever newly given to a leaving or departed member while an active one exists. Once nobody is leaving, repeated rebalances reach an assignment in which active members differ by at most one partition and then stop moving partitions.",
 ["histories","inputs"],"All group states in small bounds, and all sequences of rebalances from them with every random choice.",
 "Convergence needs many rebalances in a real group; not covered by unit tests.",
 [S+"group_state.go",S+"incr_rebalancer.go"],[("inactive donors first",S+"group_state.go schedulePartitionMoves"),("imbalance test",S+"group_state.go isImbalanced")],(),["sync assignments and instructions over successive rebalances"])
p("C17","Member state and instructions survive the group protocol; leaving signals once",
 "What a member has prepared, is preparing and its leaving status are read by the leader exactly as reported, and the partitions and preparation instructions the leader decides reach that member unchanged. A partition to prepare is prepared once, one to forget is forgotten only if it was pending, and an assigned partition leaves the pending sets. The graceful-leave signal fires exactly once, when and only when a leaving member receives an empty assignment.",
 ["inputs","histories"],"All sequences in small bounds of preparations, completions, failures, assignments and leave requests with arbitrary topics and partitions.",
 "No unit test covers the rebalancer's protocol handling.",
 [S+"incr_rebalancer.go"],[("join metadata",S+"incr_rebalancer.go JoinGroupMetadata/userData"),("sync assignment",S+"incr_rebalancer.go ParseSyncAssignment/IntoSyncAssignment")],[("preparing, ready","pending partitions of this member",S+"incr_rebalancer.go")],["instruction handler calls","join metadata bytes","leave channel"],"client overlay")
p("C18","A partition's state store is complete and in order before it is activated",
 "Every state record that was in the state topic when activation of a partition was requested is applied to that partition's store, in log order and exactly once per restore, before its first event or interjection runs and before it is reported active; synchronisation markers never reach a store. A store that was prepared ahead of time is topped up the same way, one whose preparation is forgotten stops being fed, and neither shutdown nor a fetch still in flight makes the restore panic or hang.",
 ["histories","schedules"],"All sequences of fetches with state records, markers (own and foreign), prepare, activate and forget, with every interleaving of the fetch loop and the restore loop.",
 "Needs a broker in existing tests; interleavings are not controlled.",
 [S+"state_store_consumer.go",S+"partition_worker.go",S+"source_consumer.go"],[("marker hand-shake",S+"state_store_consumer.go sync/isCompletionMarker"),("feeding",S+"state_store_consumer.go populate/handleRecordsAndContinue")],[("state","prepping, ready, paused",S+"state_store_consumer.go")],["store ReceiveChange calls","OnPartitionActivated"],"client overlay")
p("C19","A global change log delivers every fetched record once, in order",
 "While it is running, a global change log passes every record it fetches to its receiver exactly once and in partition order, with key, value, headers and type intact, continuing after a receiver error. Pausing and resuming address exactly the requested partitions and offset, and after it is stopped it closes its client and delivers nothing more.",
 ["histories","fault_sequences"],"All sequences of fetches, receiver errors and fetch errors in small bounds, with a stop at any point.",
 "Needs a broker in existing tests; receiver errors are never injected.",
 [S+"global_change_log.go"],[("consume loop",S+"global_change_log.go consume/forwardChange")],(),["receiver calls","client calls"],"client overlay")
p("C20","Each assigned partition has one state store, revoked exactly once",
 "Between assignment and revocation of a partition every component sees the same single store instance, created for that partition and the state topic, and no two partitions share one. On revocation the store is told exactly once and forgotten, so that the next assignment starts from a fresh store.",
 ["histories","schedules"],"All sequences of assign and revoke calls over small sets of partitions.",
 "Not covered by unit tests.",
 [S+"partitioned_store.go",S+"source_consumer.go"],[("assign/revoke",S+"partitioned_store.go")],[("data","live stores",S+"partitioned_store.go")],["factory calls","Revoked calls"])
p("C21","Integer, string and byte codecs round-trip every value",
 "For every value, decoding what the integer, string or byte codec appended to a buffer yields the same value, whatever was in the buffer before. Decoding input that is too short for an integer reports an error instead of panicking or reading beyond it.",
 ["inputs"],"All int, int32 and int64 values; all strings and byte slices up to a length bound; all inputs shorter than an encoded integer.",
 "Tests sample no value of these codecs.",
 [S+"codec.go",S+"commit_log.go"],[("integer encoding",S+"commit_log.go writeSignedIntToByteArray/readIntegerFromByteArray"),("codecs",S+"codec.go")],(),["Codec.Encode / Codec.Decode"])
p("C22","The lexicographic int64 codec preserves order and round-trips",
 "For every pair of int64 values a < b, the encoding of a sorts before the encoding of b bytewise, and every encoding decodes to its value. Input of the wrong length is rejected with an error.",
 ["inputs"],"All pairs of int64 values; all byte slices of the wrong length up to a bound.",
 "Four sample values are compared; order breaks only for values differing in higher bytes.",
 [S+"codec.go"],[("encoding",S+"codec.go lexoInt64Codec")],(),["LexoInt64Codec.Encode / Decode"])
p("C23","Records convert faithfully, and a recycled record carries nothing over",
 "The Kafka record built from a record has exactly the key, value, headers, topic, partition and one type header that were set on it; an empty value is a tombstone and an unset key is no key, regardless of what a recycled record held before. An incoming record reports exactly what Kafka delivered, its type round-trips, and a copy made for a test shares nothing with and does not change the original.",
 ["inputs","histories"],"All keys, values, headers and types up to length bounds, all sequences of building, releasing and reusing records in small bounds.",
 "Not covered by unit tests; leakage needs specific reuse histories.",
 [S+"record.go"],[("conversion",S+"record.go toKafkaRecord/ToKafkaRecord/newIncomingRecord"),("pool reset",S+"record.go recordPool")],(),["kgo.Record contents"])
p("C24","Every event reaches exactly one handler; undecodable ones follow the policy",
 "An event is given to the first registered handler whose type equals its record type, or to the default handler if there is none, exactly once and with the decoded value; its completion state is the handler's. An event that cannot be decoded is never given to a handler: the configured deserialization error handler, or the default when none is configured, is asked exactly once, and its answer decides: Continue completes the event, FailConsumer fails the consumer (it becomes unhealthy and stops without committing the event), FatallyExit ends the application.",
 ["inputs","configurations"],"All registration sequences in small bounds, all record types up to a length bound, all decoder outcomes and handler answers, all combinations of configured error handlers.",
 "Not covered by unit tests.",
 [S+"event_source.go",S+"source.go"],[("routing",S+"event_source.go handleEvent/eventProcessorWrapper.process"),("decode errors",S+"event_source.go eventProcessorExecutor.Exec, source.go deserializationErrorHandler")],(),["handler calls","returned state"])
p("C25","Replaying a simple store's change log reproduces the store",
 "After any sequence of puts and deletes, the store returns exactly the latest value put for each key and nothing for deleted or unknown keys. Replaying the emitted change-log entries, in order, into a fresh store gives the same contents; an entry that cannot be decoded is reported as an error and changes nothing.",
 ["histories","inputs"],"All sequences of operations in small bounds over arbitrary keys and values.",
 "Not covered by unit tests.",
 [S+"stores/simple_store.go"],[("change replay",S+"stores/simple_store.go ReceiveChange"),("entry creation",S+"stores/simple_store.go Put/Delete/ToChangeLogEntry")],(),["Get results","change-log entries"])
p("C26","The min-max heap always yields its true minimum and maximum",
 "After any sequence of pushes, pops, peeks, updates and removals, Min and Max return items of least and greatest priority among those present, PopMin and PopMax remove exactly the item they return, Remove and Update affect exactly the given item, and the heap holds exactly the items pushed and not yet removed.",
 ["histories","inputs"],"All operation sequences in small bounds with arbitrary priorities, and every single operation on every valid heap up to a size bound.",
 "Not covered by unit tests.",
 [S+"stores/min_max_heap.go"],[("heap order",S+"stores/min_max_heap.go up/down/setMax"),("item positions",S+"stores/min_max_heap.go swap/Push")],[("items","heap array",S+"stores/min_max_heap.go")],["Min/Max/PopMin/PopMax results"])
p("C27","The sharded tree keeps every key in one shard and counts all items",
 "For every exponent and hash function, equal keys always select the same tree, the tree selected is always one of the 2<<exponent shards and is determined by the hash, every shard is reachable, and an item stored through its key is found through it. Len is the number of distinct items stored across all shards.",
 ["inputs","histories"],"All hash values; exponents in a small range; all insertion sequences in small bounds.",
 "Examples use fixed keys.",
 [S+"stores/sharded_tree.go"],[("routing",S+"stores/sharded_tree.go For")],(),["For/Len results"])
p("C28","The generic linked list behaves as a sequence",
 "After any sequence of list operations, including ones with foreign or removed elements as marks, forward and backward traversal give the same sequence, which is the one an ideal sequence would have, and Len is its length. Operations with elements of another list change nothing.",
 ["histories","inputs"],"All operation sequences in small bounds over two lists with arbitrary element choices.",
 "The tests run fixed sequences.",
 [S+"sak/yadll.go"],[("list operations",S+"sak/yadll.go")],(),["Front/Next/Back/Prev/Len"])
p("C29","A pool never hands the same object to two borrowers and always resets it",
 "Objects obtained from a pool are, at any time, held by at most one borrower; every recycled object has been reset before it is handed out again, and the pool never retains more than its size. This holds for concurrent use.",
 ["histories","schedules"],"All interleavings of borrow and release by concurrent users in small bounds.",
 "The example is sequential.",
 [S+"sak/pool.go"],[("free list",S+"sak/pool.go Borrow/Release")],(),["borrowed objects"])
p("C30","Halting a run status halts it and all of its descendants, and nothing else",
 "A run status is running until it or one of its ancestors is halted, then it is and remains not running, its done channel is closed and its error non-nil, no matter how often or from where it is halted. Halting never affects ancestors or siblings, and values attached to it are visible to it and its forks.",
 ["histories","schedules"],"All trees of forks and halt sequences in small bounds.",
 "The example covers one tree.",
 [S+"sak/context.go"],[("fork/halt",S+"sak/context.go")],(),["Running/Done/Err"])
p("C31","Source settings resolve to the documented topic names, clusters and defaults",
 "The commit log and state topics are named from the group and topic unless a state topic is given; state goes to the state cluster or else the source cluster. Unset commit-log partitions, replication and min-in-sync resolve to 5, 1 and 1, and the resolved min-in-sync is at least 1 and, when replicated, below the replication factor.",
 ["configurations"],"All integer settings and all names up to a length bound.",
 "Not covered by unit tests.",
 [S+"source.go"],[("defaults",S+"source.go minInSyncConfig/replicationFactorConfig/commitLogPartitionsConfig"),("names",S+"source.go CommitLogTopicNameForGroupId/StateStoreTopicName")],(),["Source accessors and created topics"])
p("C32","A topic-partition set behaves as an ordered set",
 "After any sequence of inserts and removals, membership, size and the ordered item list are those of the mathematical set; Insert and Remove report whether they changed it. Sets do not influence each other.",
 ["histories","inputs"],"All operation sequences in small bounds over arbitrary topics and non-negative partitions.",
 "Not covered by unit tests.",
 [S+"topics.go"],[("ordering",S+"topics.go topicPartitionLess"),("operations",S+"topics.go TopicPartitionSet")],(),["Insert/Remove/Contains/Items"])
p("C33","MSK cluster configuration uses the endpoints and credentials of its auth type",
 "Configuring a client for an MSK cluster looks the cluster up once, uses exactly the broker list published for the chosen authentication type, adds the matching authentication and TLS settings, and lets the user's own options come last. IAM authentication passes on exactly the retrieved credentials or the retrieval error, a missing cluster, address or broker list is an error, and nothing is remembered from a failed attempt.",
 ["inputs","fault_sequences","configurations"],"All auth types, all combinations of present and missing broker strings, all API failures, all broker list contents up to a bound.",
 "The tests cover one auth type and three failures, and never retrieve credentials.",
 ["msk/cluster.go"],[("broker selection","msk/cluster.go getBootstrapBrokers"),("options","msk/cluster.go Config"),("IAM","msk/cluster.go saslIamAuth")],(),["seed brokers and SASL settings of the built options"],"client overlay")
p("C34","Topic provisioning adopts existing topics, creates missing, reports failures",
 "Creating a source adopts the partition counts of existing topics and creates exactly the missing source, commit-log and state topics with the resolved partition counts, replication, min-in-sync and cleanup policy; a state topic whose partition count differs from the source's is an error. Network failures are retried a bounded number of times, any other failure is returned at once, and creating a destination creates its topic and stops at the first success.",
 ["fault_sequences","configurations"],"All combinations of existing and missing topics, partition counts, and error outcomes of every admin call.",
 "Needs a broker in existing tests; failures are never injected.",
 [S+"topics.go"],[("resolution",S+"topics.go resolveOrCreateTopics"),("retry",S+"topics.go CreateSource/CreateDestination/isNetworkError")],(),["admin calls","returned source and error"],"client overlay")
p("C35","Explicit partitions are honoured and automatic ones use the topic's partitioner",
 "A record with an explicit partition is always sent to that partition; one left to automatic assignment goes where the partitioner configured for its topic, or else the default one, sends it. This does not depend on other records or topics.",
 ["inputs"],"All partition numbers and counts, all topics up to a length bound, all maps of per-topic partitioners in small bounds.",
 "The test samples a few records.",
 [S+"record.go"],[("delegation",S+"record.go optionalTopicPartitioner.Partition, OptionalPartitioner.ForTopic")],(),["partition chosen"])
p("C36","Stopping or failing an event source always terminates it and signals Done",
 "After Stop, StopNow or a failed source, the Kafka client is closed, every background component is told to halt and Done is signalled, exactly once per graceful stop and however often or concurrently stopping is requested. With the incremental balancer a graceful stop goes on processing what the member still owns, and closes the client and halts only after the group has let the member go.",
 ["schedules","histories"],"All interleavings of stop requests, failures and the leave signal.",
 "Needs a broker in existing tests.",
 [S+"event_source.go",S+"source_consumer.go"],[("stop",S+"event_source.go Stop/StopNow/closeOnFail"),("leave",S+"source_consumer.go leave")],(),["client Close calls","Done channel","run status"],"client overlay")
p("C37","Emitting metrics never blocks or crashes processing",
 "When the metrics channel is full or the event source is stopping, a metric is dropped: neither the application's own metrics nor those of transactions and partition preparation ever block or panic. While running, every metric accepted is given to the handler once, with its execution time defaulted to its start time.",
 ["schedules"],"All fill levels of a small channel and every interleaving of emission with shutdown.",
 "Not covered by unit tests.",
 [S+"event_source.go",S+"eos_producer.go",S+"source_consumer.go"],[("emission",S+"event_source.go EmitMetric/emitMetrics"),("producers",S+"eos_producer.go clearState, source_consumer.go PrepareTopicPartition")],(),["metrics handler calls"],"client overlay")
p("C38","Numeric and slice helpers compute their mathematical results",
 "Min, Max and their n-ary forms return an element of their arguments that bounds all of them, Abs is non-negative except for the minimal integer, and the pointer, struct, map and key conversions keep exactly the elements, with no aliasing to their input.",
 ["inputs"],"All integer arguments; all slices and maps up to a length bound.",
 "Examples sample single values.",
 [S+"sak/util.go"],[("helpers",S+"sak/util.go")],(),["return values"])
p("C39","Log filtering emits exactly the messages at or above the configured level",
 "A message reaches the configured logger if and only if its level is at or above the configured one, with its format and arguments unchanged, for the library's own messages and for those of the Kafka client, whose level mapping keeps severity order.",
 ["configurations","inputs"],"All pairs of configured and message levels.",
 "Not covered by unit tests.",
 [S+"log.go"],[("filter",S+"log.go")],(),["logger calls"])
p("C40","Partition assignment works, and is announced in order, under every strategy",
 "With every supported list of balance strategies, a partition assigned to the consumer gets a worker and the application is told in order that it was assigned, activated once its store is ready, about to be revoked, and revoked, each once per assignment. No assignment or revocation sequence, prepared ahead of time or not, makes the consumer panic or leaves an assigned partition without a worker.",
 ["configurations","histories"],"All lists of strategies; all sequences of prepare, assign and revoke in small bounds.",
 "Needs a broker in existing tests; only the default strategy is used.",
 [S+"source_consumer.go",S+"balancer_options.go",S+"source.go"],[("assignment",S+"source_consumer.go assignPartitions/revokePartitions"),("strategies",S+"balancer_options.go toGroupBalancers")],(),["source partition handlers","client overlay callbacks"],"client overlay")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
