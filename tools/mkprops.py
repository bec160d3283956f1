#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and the checks part of MANIFEST.json from one table."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, tech, level="exploration", note="", state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, level=level, note=note, state=state))

SVC="internal/service/deckard_service.go"; Q="internal/queue/queue.go"; HK="internal/queue/queue_housekeeper.go"
MC="internal/queue/cache/memory_cache.go"; RC="internal/queue/cache/redis_cache.go"; RS="internal/queue/cache/redis_cache_scripts.go"
MS="internal/queue/storage/memory_storage.go"; MG="internal/queue/storage/mongo_storage.go"; SC="internal/queue/score/score.go"
BOTH="memory and Redis/MongoDB back ends"
ENGINE="Random operation histories on the real service, queue, cache and storage code (memory back ends, and the Redis and MongoDB code against in-process protocol servers) under a virtual clock; "

p("C01","Pull returns the lowest-scored eligible messages",
  "A pull of n messages from a queue (n counts as 1 when not positive and as 1000 when larger) returns exactly min(n, number of eligible messages) distinct messages, and no eligible message that was left behind has a lower priority score than one that was returned. Within a response messages are ordered by ascending reported score. An empty queue answers with an empty list and no error.",
  ["histories","inputs"],"every history of adds, pulls, acks, nacks, locks, timeouts and removals, every requested amount, ties and equal scores included, on memory and Redis/MongoDB back ends",
  "the tests pull from queues of a few messages in insertion order; they do not relate the result to the scores an arbitrary history produced",
  [SVC,Q,MC,RC,RS],[("sorted pool per queue; removal from the front",MC+" PullMessages"),("ZRANGE/ZRANGEBYSCORE script",RS+" pullElementsScript"),("amount clamping",SVC+" Pull")],
  ["PullResponse against a reference model of scores"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"each pull answer is compared with a reference model. Assurance is over the explored histories only.")
p("C02","Pull score bounds are respected exactly",
  "A pull with a minimum and/or maximum score returns only messages whose priority score lies within the inclusive bounds, skips no eligible message inside the bounds in favour of a worse one or because of messages outside them, and leaves messages outside the bounds available and unchanged. A bound of 0 means no bound, bounds outside [0, 9007199254740992] are clamped to it, and the deprecated score filter f (used only when no maximum is given) means a maximum of now minus f milliseconds.",
  ["inputs","histories"],"every combination of bounds (including negative, huge, crossed and infinite ones), amounts and queue contents",
  "the tests use one or two bounds on a handful of messages and never combine bounds with a limit smaller than the number of filtered-out messages",
  [SVC,SC,MC,RC,RS],[("bound conversion",SC+" GetPullMinScore/GetPullMaxScore"),("filtering loop",MC+" PullMessages"),("ZRANGEBYSCORE",RS)],
  ["PullResponse against the model filtered by the bounds"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"bounds are generated around the model's scores.")
p("C03","A message in flight is delivered to no one else",
  "From the moment a pull returns a message until it is acknowledged, negatively acknowledged, times out or is removed, no other pull returns that message, however many clients and housekeeping tasks run at the same time. One pull never returns the same message twice.",
  ["schedules","histories"],"every interleaving of concurrent adds, pulls, acks, nacks, removals, lock and timeout housekeeping on one or more queues",
  "the existing concurrency tests run one fixed pattern of parallel pulls; exclusivity must hold for every interleaving",
  [Q,MC,RC,RS],[("single mutex around the pools",MC),("atomic Lua scripts",RS)],
  ["recorded call and return events of all clients, checked offline"],"concurrent stress with an offline delivery-interval checker",
  note="Many goroutines on the real code (memory back ends and Redis/MongoDB code on in-process servers); every delivery interval is recorded and overlaps of the same message are searched offline, plus sequential traces with the model.")
p("C04","No message is lost or duplicated",
  "A message that was added successfully and has not been removed, expired or evicted is never lost and never duplicated: whatever was pulled, acked, nacked, locked, timed out or re-added in between, once deadlines and locks have run out and housekeeping has run, repeated pulls obtain every such message exactly once. Counting a queue returns the number of its live messages (and of expired ones that expiry housekeeping has not yet removed). (An addition and a removal, or a renewal and the expiry, of the same message that overlap in time are excepted: see the known findings.)",
  ["histories","schedules"],"every history and every concurrent schedule of operations over any number of queues and messages",
  "tests follow single messages through short scripts; conservation is about all messages over all histories",
  [Q,HK,MC,MS,RC,RS,MG],[("pools hold each id once",MC),("scripts move ids atomically",RS),("storage is the source of truth",MS)],
  ["set of messages obtained by a final drain, Count"],"conservation monitor over recorded histories",
  note="Sequential and concurrent histories end with a full drain; the drained multiset must equal the model's live set.")
p("C05","Acknowledgement deadline",
  "A pulled message that is neither acked, nacked nor removed becomes available again, with the best (lowest, 0) priority, when timeout housekeeping runs at or after its deadline, and never before the deadline has passed. The deadline is the pull's own acknowledgement deadline in milliseconds, 300000 when the pull gives none; every message past its deadline is returned by one housekeeping run (up to 1000 per queue).",
  ["histories","inputs"],"all deadlines (milliseconds to days), all housekeeping times and numbers of messages and queues",
  "tests check one message with one deadline and a frozen clock",
  [Q,HK,MC,RC,RS],[("deadline stored as processing score",MC+" PullMessages"),("timeout sweep",HK+" ProcessTimeoutMessages")],
  ["availability before and after each housekeeping run"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"housekeeping runs are placed just before and just after deadlines.")
p("C06","Locked messages stay hidden for exactly their lock time",
  "A message acked or nacked while in flight with a positive lock time is returned by no pull before the lock time has elapsed and becomes available when unlock housekeeping of its queue runs at or after that moment. Its priority is then the score given with the ack or nack if any, otherwise the time of unlocking for an ack and 0 for a nack; all due messages of all queues are unlocked by one run (up to 1000 per queue and kind), independently per queue and per kind of lock.",
  ["histories","inputs"],"all lock times, explicit or missing scores, mixtures of ack and nack locks in several queues, all housekeeping times",
  "tests lock one or two messages in one queue",
  [SVC,Q,HK,MC,RC,RS],[("lock pools",MC+" LockMessage/UnlockMessages"),("lock score pool",RS+" lockElementScript")],
  ["availability and priority before and after each housekeeping run"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"unlock runs are placed just before and just after lock ends.")
p("C07","Ack and nack set the documented priority",
  "After an ack or nack without lock of a message in flight, the message is immediately available with exactly the priority documented: the given non-zero score clamped to [0, 9007199254740992]; otherwise, for an ack, the current time in milliseconds minus the given subtraction, clamped to that range, and for a nack 0. The answer says success exactly when the message was in flight, and an ack or nack of a message that is not in flight changes neither its availability nor its priority.",
  ["inputs","histories"],"all scores and subtractions (negative, zero, huge, infinite), in-flight or not, any history",
  "tests use a few positive scores; range limits, sequences and not-in-flight cases are not covered",
  [SVC,Q,SC,MC,RC,RS],[("score computation",SVC+" Ack/Nack"),("move script",RS+" moveElementScript")],
  ["AckResponse, later pulls and reported scores"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"priorities are observed through bounded pulls and reported scores.")
p("C08","Adding creates or updates without disturbing delivery state",
  "An add reports as created exactly the messages whose (queue, id) did not exist and as updated those that did (an expired but not yet removed one counts as existing). A new message is immediately available with its given score clamped to [0, 9007199254740992] (current time when 0); an update replaces content and expiry but neither its priority, its usage diagnostics nor its being available, in flight or locked. A batch with a message without id or queue (or, with the Redis cache, of a queue name with braces) fails the request and adds nothing. When a batch repeats an id, the last one counts. (Two additions of one new message at the very same time on MongoDB are excepted: see the known findings.)",
  ["inputs","histories"],"all batches (duplicates inside a batch, several queues, invalid members at any position) and all states of the existing messages",
  "tests add one batch of fresh messages and one repeated message",
  [SVC,Q,MS,MG,MC,RC,RS],[("upsert",MS+" Insert / "+MG+" Insert"),("add only if in no pool",RS+" addElementsScript")],
  ["AddResponse, Count, GetById, pulls before and after"],"model-based trace monitoring under a virtual clock",
  note=ENGINE+"re-adds are generated in every delivery state.")
p("C09","Message content is returned exactly as added",
  "Every pull and every lookup by id returns the id, queue, payload, text payload, metadata and (lookup) description exactly as last added, and the breakpoint exactly as given by the last ack, byte for byte, for any content. Lookups have no side effect and find exactly the existing messages of that queue and id.",
  ["inputs","histories"],"any strings, typed payloads, metadata maps, sizes up to the transport limit, through a real client connection, interleaved with updates and acks",
  "tests compare one small payload",
  [SVC,MS,MG,"deckard_service.pb.go"],[("field copies",SVC+" Add/Pull/GetById"),("document mapping",MG+" Insert/Find")],
  ["responses over a real gRPC connection"],"content monitor over recorded client traffic",
  note="A real gRPC client and server; contents are hostile and compared byte for byte with what the monitor recorded.")
p("C10","Delivery diagnostics count acks and nacks exactly",
  "The diagnostics of a pulled message are exactly the numbers of acks and nacks it has received since it was created and the lengths of the current runs of consecutive acks and nacks (a nack resets the ack run and vice versa). Timeouts, locks, re-adds and operations on other messages do not change them; a message created anew after removal starts from zero.",
  ["histories","schedules"],"every sequence of acks and nacks, also concurrent on different messages",
  "tests check two short sequences",
  [SVC,MS,MG],[("counters",MS+" Ack/Nack"),("$inc/$set",MG+" Ack/Nack")],
  ["diagnostics of pulled messages"],"model-based trace monitoring under a virtual clock", note=ENGINE+"counters are compared at every pull.")
p("C11","Queues and ids are isolated from one another",
  "An operation on one (queue, id) never changes, returns, counts or removes a message of another queue or id, whatever the names contain (separators, internal key fragments, glob and regular-expression characters, unicode, equal ids in several queues). Names are compared exactly, so different names never denote the same queue or message.",
  ["inputs","histories"],"all pairs of names, in particular ones that collide under concatenation, prefixing or pattern matching; Redis rejects braces in queue names",
  "tests use simple names that cannot collide",
  [MS,MG,MC,RC],[("key construction",MS+" getKey"),("pool keys",RC+" activePool etc.")],
  ["all responses, per queue"],"model-based trace monitoring under a virtual clock", note=ENGINE+"names come from a colliding vocabulary.")
p("C12","Removal is complete, final and reported exactly",
  "Removing ids from a queue (directly or with an ack or nack that asks for removal) deletes exactly those existing messages whatever state they are in: they are never pulled, found or counted again until re-added, and a re-added one starts afresh. The answer reports how many distinct existing messages were removed from storage and from cache, unknown ids count zero, and nothing else is affected.",
  ["histories","inputs"],"any subset of known, unknown and repeated ids in any delivery state, in any queue",
  "tests remove one or two available messages",
  [SVC,Q,MS,MG,MC,RC,RS],[("two-step removal",Q+" Remove"),("all pools",MC+" Remove / "+RS+" removeElementScript")],
  ["RemoveResponse, AckResponse.removal_response, later pulls, Count, GetById"],"model-based trace monitoring under a virtual clock", note=ENGINE+"removals hit every state.")
p("C13","Expired messages are removed, live ones are not",
  "The expiry housekeeping removes from storage and cache exactly messages whose expiry (time of the last add plus its minutes to live) is at or before the run, earliest first and up to 10000 per run, and never a message that is timeless or whose expiry lies in the future, whatever state it is in. Re-adding a message renews its expiry; with the in-memory storage an expired message is no longer returned even before housekeeping.",
  ["inputs","histories"],"all times to live (zero, negative, overflowing), timeless flags, re-adds and run times",
  "tests use one expired and one live message",
  [SVC,HK,MS,MG],[("expiry computation",SVC+" Add"),("expiry sweep",HK+" RemoveTTLMessages")],
  ["pulls, Count, GetById and removal after each run"],"model-based trace monitoring under a virtual clock", note=ENGINE+"runs are placed around expiry instants.")
p("C14","Maximum queue size evicts only the excess, soonest expiry first",
  "After the eviction housekeeping a queue with a positive configured maximum holds at most that many messages, those removed are exactly the excess and have the earliest expiry among the queue's messages, and queues without a maximum or below it are untouched. No eviction or expiry removal happens while a recovery is running.",
  ["inputs","histories"],"all maxima, queue sizes, expiry distributions and numbers of queues",
  "tests evict from a single queue with mocked storage",
  [HK,MS,MG,"internal/queue/queue_configuration_service.go"],[("count and sorted find",HK+" removeExceedingMessagesFromQueue")],
  ["Count, GetById and drain after each run"],"model-based trace monitoring under a virtual clock", note=ENGINE+"maxima are generated around queue sizes.")
p("C15","Queue configuration edits take effect and are read back",
  "After a successful edit of a queue's maximum size, a following read on the same instance returns the new value; an edit with 0 or without configuration changes nothing, a negative one removes the limit, an unknown queue reads as 0. Edits of one queue never change another's configuration, and the value applied by eviction is the one read back.",
  ["histories","inputs"],"all sequences of edits and reads over several queues on one instance",
  "tests script the cache with mocks",
  [SVC,"internal/queue/queue_configuration_service.go",MS,MG],[("write-through with local cache","internal/queue/queue_configuration_service.go")],
  ["GetQueueResponse, effect of eviction"],"model-based trace monitoring under a virtual clock", note=ENGINE+"one instance; several instances sharing a storage may read a stale value for minutes, by design.")
p("C16","Recovery restores every stored message to delivery",
  "When the cache has lost its content, recovery steps put every message that storage held when recovery began (and that still exists) back into delivery, once and with its stored score, whatever their number, also when it is interrupted and resumed at any cache or storage command, when several steps fail, and while clients keep adding, pulling, acking and removing. Messages already known to the cache keep their state, and a finished recovery does not run again.",
  ["crash_points","fault_sequences","histories"],"all storage contents (up to several batches), every interruption point, every failing command, concurrent client operations",
  "tests run recovery over a mock or a few messages without interruption",
  [HK,MG,MS,RC],[("breakpoints kept in the cache",HK+" RecoveryMessagesPool"),("add only if absent",RS)],
  ["drain after recovery, recovery keys"],"fault injection at every backend command with a drain monitor", level="fault_enumeration",
  note="Cache wipes followed by recovery with a fault or crash at each command index in turn; the drain must equal the live set.")
p("C17","Backend failures are reported and never corrupt state",
  "When a storage or cache command fails, the client call returns an error (never a false success). Then, and also when the client abandons a call while it runs, no message other than those named in the call is affected, and after the fault is gone retrying the call brings the queue to the state of a call that never failed (except that ack counters may count every attempt, and the counts answered those of the last one). Housekeeping survives failures and completes its work on a later run; no failure sequence makes a message be delivered to two clients, lost or stuck for ever.",
  ["fault_sequences","crash_points"],"a failure before or after any single backend command of any call, the client going away at any of them, random sequences of failures, crashes with restart, and lagging replica reads",
  "tests mock single errors and look at the returned error only",
  [Q,SVC,HK,MG,RC],[("error returns",Q),("storage before cache ordering",Q)],
  ["responses under injected faults, drain after repair"],"fault injection at every backend command with a model monitor", level="fault_enumeration",
  note="Every call type is run with a failure at each of its backend commands (lost request or lost reply, client gone), then retried and drained.")
p("C18","No data race, panic or deadlock under concurrent use",
  "Concurrent use of one instance through its API, with housekeeping, metrics collection, auditing and configuration edits running, causes no data race, no panic and no deadlock in Deckard's code, and malformed or extreme requests are answered without crashing the server.",
  ["schedules","inputs"],"all interleavings of all API calls and background tasks; all request contents",
  "the tests are mostly sequential and the race detector is not part of the stable suite",
  [MC,MS,Q,HK,"internal/metrics/metrics_map.go","internal/audit/audit.go",SVC],[("mutexes",MC),("mutexes",MS)],
  ["race detector reports, recovered panics, progress"],"Go race detector under concurrent stress", note="The whole stack built with -race and driven by many goroutines; a report that involves Deckard's code is a violation.")
p("C19","Audit records every delivery event exactly once",
  "With auditing on, every insertion into the cache, ack, nack, timeout, unlock, removal and delivery inconsistency is sent to the audit store exactly once (an id repeated in one batch of an add may be recorded once for each occurrence), with the right queue, its prefix and suffix, id, signal, reason and lock time, as well-formed bulk requests, including those of a service that has gone quiet, which are sent after at most about five minutes without events, and those still buffered when the service shuts down. Failing or slow audit requests never make an operation fail and lose at most the entries they carried.",
  ["histories","schedules","fault_sequences"],"all event sequences, batch boundaries, concurrent producers, failing audit requests and shutdown at any moment",
  "tests send a few entries to a mock transport",
  ["internal/audit/audit.go",Q,HK],[("buffered channel and batch sender","internal/audit/audit.go StartSender"),("shutdown flush","internal/audit/audit.go")],
  ["bulk requests received by a recording HTTP server"],"exactly-once monitor on a recording audit server", note="The real auditor talks HTTP to a recording server; the received entries are matched against the events of the model.")
p("C20","Graceful shutdown completes what was accepted",
  "On a termination signal (SIGTERM, SIGINT or SIGQUIT) the service stops accepting new calls, every call already accepted gets its normal answer, background tasks finish what they are doing and stop, the audit entries of answered calls are sent, and the process exits with status 0 within a bounded time (streams left open by clients are closed after a grace period), at whatever moment after it began to accept calls the signal arrives. A call answered with success before the exit is not lost from the persistent back ends.",
  ["crash_points","schedules"],"signals at any moment relative to calls in progress, housekeeping tasks and audit batches; idle and loaded instances",
  "tests shut down once with nothing in progress",
  ["internal/shutdown/shutdown.go","internal/cmd/deckard/main.go","internal/audit/audit.go","internal/trace/trace.go"],[("two wait groups","internal/shutdown/shutdown.go PerformShutdown")],
  ["exit status of the real process, answers to in-flight calls, audit server"],"black-box process monitor with signals at random moments",
  note="The real binary with the real protocol clients on in-process back-end servers; signals at seeded points of the traffic.")
p("C21","Metrics equal what happened",
  "The exported counters equal the number of acks, nacks, timeouts, unlocks, empty pulls, expiry and eviction removals and missing messages that actually happened, labelled with the right queue prefix. After each metrics task the per-queue gauges equal the number of messages and the age of the least recently used one (since it was first added or last acked), and a queue that has vanished reads 0; every access of a back end is measured in milliseconds under the name of its operation, histograms use the configured bucket bounds, and resource labels are attached to every exported series.",
  ["histories","configurations"],"all histories, queue names with and without prefix, queues that appear and vanish, all bucket configurations",
  "tests check the merge of two maps",
  ["internal/metrics/metrics.go","internal/metrics/metrics_map.go","internal/metrics/registry.go",Q,HK],[("gauge maps","internal/metrics/metrics_map.go"),("task",HK+" ComputeMetrics")],
  ["collected series against event counts of the model"],"metric conservation monitor",
  note="The OpenTelemetry SDK and exporter are stand-ins (their modules are not available offline); Deckard's instrumentation code is the real one.")
p("C22","Configuration values resolve by documented precedence",
  "Every documented setting takes its value from its DECKARD_ environment variable, else from a documented alias variable in order, else from its documented default, unless the program sets it explicitly; empty values count as absent, a variable set to the documented default does not hide an alias with another value, values that cannot be parsed never override the default, and variables without the prefix are ignored. Configuring again re-reads the environment only when a reset is asked for.",
  ["configurations"],"all combinations of main, alias, empty, invalid and unprefixed variables over all settings",
  "tests set one or two variables at a time",
  ["internal/config/viper_config.go","internal/config/config.go","internal/config/cache.go","internal/config/storage.go","internal/config/service.go","internal/config/housekeeper.go","internal/config/metrics.go","internal/config/audit.go","internal/config/logging.go"],
  [("fallback over aliases","internal/config/viper_config.go getWithFallback")],["values returned by the accessors"],"oracle-checked configuration sweeps",
  note="All settings are resolved under random environments and compared with a table written from the documentation.")
p("C23","Score and time conversions are exact",
  "Scores given by clients are mapped order-preservingly into [0, 9007199254740992] (0 or not-a-number means the current time in milliseconds when adding and no bound when pulling), and no result aliases mutable shared limits. Conversions between instants and milliseconds are exact inverses at millisecond precision over the representable range, and elapsed times are measured in milliseconds.",
  ["inputs"],"all double values including infinities, not-a-number and signed zero, all representable instants",
  "tests try a handful of values",
  [SC,"internal/dtime/deckard_time.go","internal/queue/utils/primitive_conversion.go","internal/queue/utils/math_helper.go"],[("clamping",SC),("conversion","internal/dtime/deckard_time.go")],
  ["returned values"],"oracle-checked value sweeps", note="Boundary-biased generation against exact arithmetic.")
p("C24","Memory and Redis/MongoDB back ends behave alike",
  "The same sequence of API calls and housekeeping runs at the same times produces the same answers, deliveries, counts and diagnostics on the in-memory back ends as on Redis and MongoDB, up to the choice among messages of equal score and documented differences (hiding of expired messages before housekeeping, rejection of braces in Redis queue names, handling of empty fields in updates).",
  ["histories","configurations"],"all call sequences; memory cache against Redis cache, memory storage against MongoDB storage",
  "the shared test suites run the same small scripts on each, and not at all without servers",
  [MC,RC,RS,MS,MG],[("shared interfaces","internal/queue/cache/cache.go"),("shared interfaces","internal/queue/storage/storage.go")],
  ["pairwise comparison of all interface answers"],"differential monitoring of the back ends",
  note="Redis and MongoDB are in-process protocol servers written for this task that execute Deckard's own Lua scripts and commands.")
p("C25","Flush is confined",
  "Flush empties everything on an instance whose cache and storage are both in memory, after which it behaves like a new instance; on any other instance it reports failure and changes nothing. Flushing a cache on a shared Redis deletes all keys of its own prefix (those starting with the configured prefix and a colon, the prefix taken literally) and no other key.",
  ["configurations","histories"],"all back-end combinations, prefixes that are prefixes of one another, foreign keys, any amount of data, cluster and single node",
  "tests flush small data sets",
  [SVC,Q,MC,RC,MS],[("memory check",SVC+" Flush"),("prefix scan",RC+" Flush")],["FlushResponse, remaining keys and messages"],"state monitor around flush calls",
  note="The key space of the protocol server is inspected before and after.")
p("C26","TLS and client authentication are enforced as configured",
  "With server certificates configured the service accepts only TLS connections and presents one of exactly these certificates with its chain, the one for the server name the client asks for when there is one; the configured client authentication mode decides which clients get in (NoClientCert and RequestClientCert: all; RequireAnyClientCert: those with any certificate; VerifyClientCertIfGiven: those without one or with one the configured authorities vouch for; RequireAndVerifyClientCert: only the latter), and no call of a rejected client is executed. Without any certificate or key configured it serves plaintext. Certificates without keys, keys without certificates, lists of different lengths, unreadable or mismatched files, and (with certificates configured) an unreadable authority or an unknown mode prevent startup.",
  ["configurations"],"all modes, client certificates (none, self-signed, foreign authority, expired, not yet valid, wrong usage, through an intermediate, right authority), lists of certificates and authorities, every way of breaking one element",
  "tests need files and cover two modes",
  [SVC,"internal/cmd/deckard/main.go"],[("credential loading",SVC+" loadTLSCredentials/getClientAuthType/loadClientCertPool")],["outcome of real client connections"],"handshake monitor over generated configurations",
  note="Certificates are generated by the monitor; every connection attempt's outcome is compared with the mode's table, in process and with the real binary.")
p("C27","Redis keys of one operation share a cluster slot and one prefix",
  "Every multi-key command or script Deckard sends to Redis (a flush's deletion aside, which falls back to single keys) touches only keys that hash to one cluster slot, and every key starts with the configured prefix (taken literally) and a colon, so the same calls succeed unchanged on a cluster, and listing queues finds exactly the non-empty queues of the asked kind under its own prefix across all nodes.",
  ["inputs","configurations"],"all queue names without braces, ids, prefixes and operations; one node and several",
  "cluster tests need a cluster and use a few names",
  [RC,RS],[("hash tags",RC+" activePool/lockPool"),("scan on every master",RC+" ListQueues")],["commands received by the protocol servers"],"command-stream monitor on a recording server",
  note="The servers recompute the slot of every key they receive.")
p("C28","Queue names split into prefix and suffix consistently",
  "A queue name splits at its first double colon into a prefix and a suffix that reassemble to the name, and a name without one is its own prefix with an empty suffix.",
  ["inputs"],"all strings","tests try three names",
  ["internal/queue/message/message.go","internal/queue/pool/pool.go"],[("split","internal/queue/message/message.go GetQueueParts")],["returned parts"],"oracle-checked value sweeps", note="Names rich in separators.")
p("C29","Glob matching of names",
  "Matching a name against a glob pattern of literals, star, question mark and character classes decides exactly as the pattern's definition says, over the whole name; a lone star matches every name.",
  ["inputs"],"all patterns of that kind and all names (single-byte names where ? or classes are used)","tests try seven pairs",
  ["internal/queue/utils/glob_pattern.go"],[("matcher","internal/queue/utils/glob_pattern.go")],["returned decision"],"oracle-checked value sweeps",
  note="An independent backtracking matcher is the oracle; the third-party matcher's known flaws (multi-byte ?, lone ? on the empty name, overlapping ends) are excluded inputs.")
p("C30","The published gRPC contract is implemented faithfully",
  "Every message encodes and decodes by the published field numbers and types without loss, its accessors return exactly the decoded values and zero values when absent, and every remote method is reachable under its published name, runs exactly its own handler once with exactly the request sent, and returns exactly that handler's answer or error.",
  ["inputs"],"all field values of all messages, all methods, success and error answers, with and without interceptors","tests use the generated code on both sides, which hides any mismatch",
  ["deckard_service.pb.go","deckard_service_grpc.pb.go","proto/deckard_service.proto"],[("generated code","deckard_service.pb.go"),("method table","deckard_service_grpc.pb.go")],["bytes on the wire, recorded handler calls"],"wire-level monitor with an independent codec",
  note="A hand-written codec from the published field table is the oracle.")

p("C31","Several instances on the same back ends act as one service",
  "Instances that share one Redis (same prefix) and one MongoDB behave as one service: after any sequence of calls and housekeeping runs spread over the instances, also when instances are stopped and replaced by new ones, every answer is the one a single instance would have given; and while several instances are used concurrently a message in flight is delivered to no one else, no message is lost or duplicated, deadlines and locks hold, and ack and nack counts are exact. (A maximum size edited on one instance may take some minutes, but not more than ten, to be seen by others.)",
  ["histories","schedules"],"all sequences of calls and housekeeping runs with any assignment to instances; all interleavings of concurrent instances; single Redis and cluster",
  "tests never run two instances",
  [Q,HK,RC,RS,MG,SVC],[("no state outside the back ends",Q),("atomic Lua scripts",RS)],
  ["answers of all instances against one model; recorded events of all clients, checked offline"],"model-based and offline-checked monitoring of several instances",
  note="Two or three full instances on the in-process Redis and MongoDB servers, with sequential histories against the model of a single instance and concurrent rounds checked for a consistent order of each message's events.")
p("C32","The running service does its housekeeping by itself",
  "With housekeeping enabled the running service performs each task (timeouts, unlocks, expiry, maximum sizes, gauges, recovery) again and again, each at its own configured delay and not more often, with no client's help and also when gRPC is disabled; runs that failed do not keep later ones from doing the work. Recovery, expiry and eviction of one process never run at the same time, and with housekeeping disabled no task runs at all. With gRPC disabled no gRPC port is opened.",
  ["configurations","fault_sequences","schedules"],"all delays of all tasks, all back-end combinations, failing commands, enabled and disabled housekeeping and gRPC",
  "tests call the task functions themselves; which tasks the program starts, when and how often is decided in main",
  ["internal/cmd/deckard/main.go","internal/config/housekeeper.go",HK],[("task schedulers","internal/cmd/deckard/main.go startHouseKeeperJobs/scheduleTask"),("one lock for the exclusive tasks","internal/cmd/deckard/main.go backgroundTaskLocker")],
  ["effects on messages, counts and gauges of the real process; commands received by the back ends"],"black-box monitor of the running process",
  note="The real binary with one task at a short delay and the others at hours (and all, none, failing) on five back-end combinations; work prepared through the API must be done by the right task only.")
p("C33","Documented settings take effect in the running service",
  "Each documented setting of the process has exactly its documented effect: a request or answer up to the configured gRPC maximum size passes and a larger one is refused (a refused request is not executed); connections are pinged, and ended when silent, idle or old, only after the configured times, and calls in progress have the configured grace; the health service reports SERVING for the whole server and every service reflection lists, and not found for others; metrics are served on the configured port and path, in OpenMetrics form only if enabled, or not at all; documents, configurations and keys go only to the configured database, collections and prefix; audit entries go to the configured address with the configured credentials, or nowhere; logs have the configured form and level and never contain payloads; an unreachable Redis or MongoDB is tried the configured number of times with the configured delay between, and unknown back-end types, missing or unusable addresses end the process with a non-zero status before it serves.",
  ["configurations"],"all values of each setting and their combinations, through each of their variable names",
  "no test starts the program",
  ["internal/cmd/deckard/main.go","internal/config/service.go","internal/config/cache.go","internal/config/storage.go","internal/config/audit.go","internal/config/metrics.go","internal/config/logging.go",SVC,"internal/metrics/metrics.go","internal/logger/logger.go"],[("server options",SVC+" ServeGRPCServer/getGrpcKeepaliveParams"),("connection retries",MG+" waitForClient; "+RC+" waitForSingleNodeClient")],
  ["connections, answers, logs and endpoints of the real process; commands received by the back ends"],"black-box monitor of the running process",
  note="The real binary, started with generated settings, watched through raw HTTP/2 connections, gRPC clients, scrapes, its output and recording back ends.")
p("C34","Traces and logs name the call they belong to",
  "A client call that arrives with a trace annotates that call's span, and no other, with the queue and message ids it concerns: add with every id and each distinct queue of the batch, pull with its queue, amount, score bounds and score filter as asked for and with the ids it delivered, ack with its score and score subtraction as given, nack, lookup, removal and count with their queue and ids. Every log line written while the call is executed carries the trace id, span id and flags of that call, and never those of another call, also when calls run concurrently, share a trace or fail; lines of calls without a trace, and of housekeeping, carry none. Answers and effects do not depend on whether a call is traced.",
  ["inputs","schedules","faults"],"all calls, trace contexts, failing commands and interleavings of calls",
  "no test passes a trace or looks at a span or a log line",
  [SVC,"internal/logger/logger.go","internal/trace/attributes.go","internal/queue/queue.go","internal/queue/queue_housekeeper.go"],[("span attributes",SVC+" addSpanAttributes"),("log context","internal/logger/logger.go S/L")],
  ["attributes set on spans; log lines"],"online monitor of spans and log lines",
  note="Calls are executed within recording spans and under a recording log core: each log line and attribute is compared with the call being executed and its model answer.")
p("C35","Finished work leaves nothing behind",
  "Whatever calls and housekeeping runs a service executed, including failed and abandoned ones, clients that connected and left, and audit deliveries that were refused: once they have ended and the messages have been removed, it holds no more than it did at first for the same queues. Goroutines, open files, connections to Redis, MongoDB and the audit server, open cursors, Redis keys and their members, stored documents and live memory do not grow with the number of calls.",
  ["histories","faults","schedules"],"all histories of calls, housekeeping runs, failures and abandoned calls, of any length",
  "no test looks at what a finished call still holds",
  [Q,SVC,"internal/audit/audit.go",MG,RC,"internal/queue/cache/memory_cache.go","internal/queue/storage/memory_storage.go","internal/queue/cache/redis_cache_scripts.go"],[("cursors and connections",MG+" Find; "+RC),("audit responses","internal/audit/audit.go send"),("lock scores","internal/queue/cache/redis_cache_scripts.go removeElementScript/unlockElementsScript")],
  ["goroutine stacks, descriptors, live heap; connections, cursors, keys and documents in the back ends"],"leak monitor over long executions",
  note="Footprint after thousands of generated calls, faults and cancellations against the footprint after the first 1500; bounded slack for pools.")
p("C36","The Helm chart deploys the service its values describe",
  "For every release name and set of values the chart either refuses them with an explanation (a back end that is neither deployed nor given, cluster mode with the chart's own Redis, no key in the connection secret) or renders a deployment of the service, and if enabled one of the housekeeper, that Kubernetes accepts and that do what the values say: names and labels are valid and at most 63 characters long; each deployment selects its own pods and each service (and the ingress and autoscaler) reaches exactly the pods of its own deployment at their gRPC port; images, replicas, ports, probes, environment, annotations, security contexts, resources and placement are those of the values. The back-end URIs lead to the deployed Redis and MongoDB with the given user and password, whatever characters they have, or come from the named secret and key (the scoped one before the deprecated one), and every secret a container refers to exists with that key. A container started with the rendered environment passes its probes, serves metrics as set, keeps messages and configurations in the named database, collections and under the key prefix, audits only if enabled, and does the housekeeping if and only if it is the housekeeper or housekeeper.self.enabled is set. With the default values the chart's MongoDB gets the unique index on message id and queue.",
  ["configurations"],"all release names and values",
  "no test renders the chart or starts what it describes",
  ["helm/values.yaml","helm/templates/_helpers.tpl","helm/templates/deployment.yaml","helm/templates/housekeeper-deployment.yaml","helm/templates/service.yaml","helm/templates/housekeeper-service.yaml","helm/templates/connection-secret.yaml","helm/templates/validate.yaml","helm/templates/ingress.yaml","helm/templates/hpa.yaml","internal/cmd/deckard/main.go","internal/config/storage.go","internal/config/cache.go"],[("names, URIs and secrets","helm/templates/_helpers.tpl"),("environment","helm/templates/deployment.yaml, helm/templates/housekeeper-deployment.yaml"),("refused values","helm/templates/validate.yaml")],
  ["rendered objects; probes, metrics, documents, keys, audit entries and housekeeping of the real containers' processes"],"monitor of rendered deployments and of the processes they start",
  note="Generated values rendered by a stand-in for Helm; every object is judged against the values, and a share of the deployments is run: the real binary with each container's environment on recording back ends.")
p("C37","The published dashboards show what the service does",
  "The Grafana and Kibana dashboards in dashboards/ work on what the service emits with default names. Evaluated between two scrapes of the service and the housekeeper, the Grafana panels show, per queue prefix and under the right legend, exactly the acks, timeouts, empty pulls (apart those whose messages are missing in the storage), missing messages, expiries and evictions (storage and cache apart) that happened, and the stored messages and age of the oldest one; the access panels count each access of a back end once and repeated lookups apart, the latency panels show latencies not below what the back ends took, and the list of queues contains every queue prefix with messages. Evaluated over the audit documents, the Kibana index pattern covers every document at the time it happened, each column exists, and the visualisations show exactly the acks, nacks and timeouts by queue prefix, the reasons of acks and of nacks by queue prefix (also empty ones), and the score subtractions by queue, id and breakpoint. Every metric of the documentation's table is exported with the documented kind and exactly the documented labels.",
  ["histories"],"all histories of calls and housekeeping on Redis and MongoDB back ends",
  "tests check single counters with mocks; none reads a dashboard, a scrape or an audit document",
  ["dashboards/grafana.json","dashboards/kibana.ndjson","docs/components.md","internal/metrics/metrics.go","internal/audit/audit.go","internal/audit/audit_signal.go",Q,HK,"internal/queue/cache/redis_cache.go","internal/queue/storage/mongo_storage.go"],[("metric names and labels","internal/metrics/metrics.go createMetrics"),("audit document","internal/audit/audit.go Entry")],
  ["scrapes of two real processes; documents received by the audit store"],"monitor that evaluates the dashboards' queries over scrapes and audit documents of known traffic",
  note="A service and a housekeeper process on the same back ends execute random traffic whose effects are known; a small PromQL evaluator and a small aggregation evaluator put their output through every panel and visualisation.")
p("C38","Traces reach the collector",
  "With an OTLP endpoint configured by the OpenTelemetry variables (OTEL_EXPORTER_OTLP_ENDPOINT, or OTEL_EXPORTER_OTLP_TRACES_ENDPOINT, which takes precedence), every call the running service answers is exported to that endpoint as exactly one span: named after its gRPC method, with deckard and its version as the service, with the queue and message ids of the call, and continuing the caller's trace (W3C traceparent) and its decision whether to sample; calls of callers without a trace start one. Calls answered before or during a shutdown are exported before the process ends. Without an endpoint nothing is exported. A collector that is absent or does not respond changes neither the start, nor the answers, nor the end of the process.",
  ["inputs","schedules","faults"],"all sequences of calls, trace headers, endpoint settings, collectors and moments of a shutdown",
  "no test starts the service with tracing or looks at what is exported",
  ["internal/trace/trace.go","internal/shutdown/shutdown.go","internal/cmd/deckard/main.go",SVC,"docs/components.md"],[("exporter, provider, propagators","internal/trace/trace.go Init"),("flush","internal/trace/trace.go Shutdown, internal/shutdown/shutdown.go PerformShutdown"),("server spans",SVC+" otelgrpc.NewServerHandler")],
  ["spans received by a collector; answers; exit of the process"],"monitor of exported spans of the real process",
  note="The real binary runs with generated endpoint settings, callers and back ends, is terminated at once or while a call is held, and the received spans are matched one by one with the answered calls. The OpenTelemetry SDK and OTLP client are stand-ins that model their documented behaviour.")
def emit():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({"id":x["id"],"title":x["title"],"statement":x["statement"],
              "quantifier":{"over":x["over"],"text":x["text"]},"why_tests_cant":x["why"],
              "anchors":{"files":x["files"],"mechanism":[{"name":a,"where":b} for a,b in x["mech"]],"observe_at":x["observe"],"hook_needed":None}})+"\n")
    claimed = open(os.path.join(here,"tools","claimed")).read().split()
    na = json.load(open(os.path.join(here,"tools","not_applicable.json")))
    m = {"version":1,"setup_cmd":"bash setup.sh",
      "checks":[{"property":x["id"],"quick_cmd":"bash check.sh %s quick"%x["id"],"thorough_cmd":"bash check.sh %s thorough"%x["id"],
         "evidence_file":"evidence/%s.json"%x["id"],"technique":"runtime monitoring: "+x["tech"],"level":x["level"],"level_note":x["note"]} for x in P if x["id"] in claimed],
      "not_applicable":na,
      "notes":"Build: check.sh overlays /verif/harness into the module and builds it with /verif/stubs standing in for OpenTelemetry modules that are not available offline. Known findings: KNOWN_FINDINGS."}
    for x in P:
        if x["id"] not in claimed and x["id"] not in [n["property"] for n in na]:
            na.append({"property":x["id"],"reason":"check not built yet"})
    json.dump(m, open(os.path.join(here,"MANIFEST.json"),"w"), indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
emit()
