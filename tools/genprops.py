#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so that the wording is edited in one place)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
M="core/main.go"; C="core/internal/statestore/cache/replicatedticketcache.go"; R="core/internal/statestore/redis/redis.go"; MEM="core/internal/statestore/memory/main.go"; F="core/internal/filter/filter.go"
p("C01","A pool's attribute filters decide ticket membership exactly",
 "For a pool without a creation-time window, a ticket is a participant exactly when it satisfies every filter of the pool: each numeric-range filter names a numeric argument the ticket has, with a value inside the range (each end inclusive or exclusive as the filter declares, and NaN inside no range); each string filter names a string argument the ticket has with exactly that value; each tag filter names a tag the ticket carries. A pool with no filters at all takes every ticket, and with a creation-time window no ticket that fails one of these filters is ever a participant.",
 ["inputs"],"every pool (any number and mix of filters, every declared bounds mode, any float64 including NaN and infinities) and every ticket",
 "the filter tests sample four pools and one ticket each; the claim ranges over all filter lists, map contents and IEEE values",
 [F],[("In: per-filter loops with early exit","core/internal/filter/filter.go In")],["return value of In","pool participants sent to matchmaking functions"])
p("C02","A creation-time window admits exactly the tickets created inside it",
 "A pool with a creation-time window never contains a ticket created outside the window (before its start, after its end, or exactly on an end the window excludes), and a ticket created inside the window is not kept out by it.",
 ["inputs"],"every window, bounds mode and ticket creation time",
 "the window test that exists is for fixed times and asserts the inverse of the documented behaviour",
 [F],[("In: creation time comparison","core/internal/filter/filter.go In")],["return value of In"])
p("C03","Filtering never crashes and pool validation is exact",
 "Deciding whether a ticket belongs to a pool never crashes the server, whichever optional fields of the pool and the ticket are absent. Pool validation accepts a pool exactly when each creation-window end that is present is a valid timestamp, and a rejection always carries an error.",
 ["inputs"],"every pool and ticket that can arrive over the wire, with any subset of optional fields missing",
 "no test builds a ticket without attributes or a pool with only one window end",
 [F],[("generated getters are nil-safe; direct field reads are not","core/internal/filter/filter.go In"),("ValidatePoolFilters","core/internal/filter/filter.go ValidatePoolFilters")],["panic of In","return values of ValidatePoolFilters"])
p("C04","A created ticket is stored as submitted, with bounded expiration",
 "The record replicated for a new ticket carries exactly the submitted tags, string arguments, numeric arguments and extensions, and no client-chosen id. Its creation time is the submitted one when that is a valid timestamp and the current time otherwise; its expiration time is the submitted one when that is valid and not later than creation time plus the configured ticket lifetime, and exactly creation time plus the lifetime otherwise.",
 ["inputs","configurations"],"every ticket, every configured lifetime, every mix of missing, invalid, early or late timestamps",
 "no test exercises ticket creation; the claim ranges over all timestamp combinations and lifetimes",
 [M],[("CreateTicket: timestamp defaulting and re-marshalling","core/main.go CreateTicket")],["payload of the replication request queued by ticket creation"])
p("C05","Ticket creation returns its own replication outcome, once",
 "A create request with a ticket queues exactly one ticket-creation replication request and returns the id and the error that the replication layer answered to that very request. A create request without a ticket is rejected as an invalid argument and replicates nothing.",
 ["inputs","fault_sequences"],"every request and every answer of the replication layer, success or failure",
 "no test runs the handler; answers of the replication layer are never faulted",
 [M],[("CreateTicket: private result channel","core/main.go CreateTicket")],["response and error of CreateTicket","replication queue"])
p("C06","Activation calls outside the size limits are refused and change nothing",
 "An activation or deactivation request with no ticket ids, or with more ids than the configured maximum per call, fails with the invalid-argument status and replicates nothing. A request within the limits is never refused for its size, in particular one with exactly the maximum.",
 ["inputs","configurations"],"every id list and every configured maximum",
 "no test calls the handlers; the boundary depends on configuration",
 [M],[("ActivateTickets/DeactivateTickets size checks","core/main.go ActivateTickets, DeactivateTickets")],["status code of the call","replication queue"])
p("C07","Every well-formed id in an activation call is replicated exactly once",
 "An accepted activation (deactivation) call replicates one activate (deactivate) update for each well-formed id in the request, in request order and keeping repetitions, and nothing for ids that are not well-formed or not in the request. The call waits for the answer to every one of these updates, and succeeds exactly when none of the answers is a failure.",
 ["inputs","fault_sequences"],"every id list and every pattern of failing answers",
 "no test calls the handlers; needs all list lengths and failure patterns",
 [M],[("validateTicketIds partitions ids","core/main.go validateTicketIds"),("updateTicketsActiveState sends and collects","core/main.go updateTicketsActiveState"),("addStateUpdateErrorDetails","core/main.go addStateUpdateErrorDetails")],["replication queue","status of the call"])
p("C08","Outgoing replication delivers each answer to its own requester",
 "Updates queued for replication are handed to the replicator in the order they were queued, each exactly once, in non-empty batches no larger than the configured threshold. The i-th answer of a batch goes to the requester of the i-th update of that batch and to nobody else.",
 ["schedules","histories","configurations"],"every arrival sequence, every interleaving of arrivals with batch timeouts, every threshold of at least one",
 "no test runs the queue; batch boundaries depend on timing",
 [C],[("OutgoingReplicationQueue: parallel request and update lists","core/internal/statestore/cache/replicatedticketcache.go OutgoingReplicationQueue")],["batches seen by the replicator","result channels of the requesters"])
p("C09","Redis replication answers each update with its own outcome",
 "For any batch, Redis replication returns one answer per update, in order: a malformed update (missing key or payload, or unknown command) is answered with an error, names its key and is never written; a well-formed update is answered with the entry id Redis returned for that very update, and with an error if the write failed or the reply was not an id. An update is never reported as written when it was not.",
 ["inputs","fault_sequences"],"every batch (any mix of valid and invalid updates) and every reply or failure of Redis",
 "the redis tests need a live server, do not compile at this commit, and never mix invalid updates or faults into a batch",
 [R],[("SendUpdates: pipelined XADD, reply parsing","core/internal/statestore/redis/redis.go SendUpdates")],["returned answers","commands sent to Redis"])
p("C10","Redis replication reproduces every update and never skips or repeats one",
 "Each well-formed update is written to the replication stream in an encoding from which a reader recovers the same command, key and payload, a new ticket's key being the entry id. Reading returns the updates in stream order, each read resumes exactly after the last entry the previous read returned, and a read that returns nothing does not move the position.",
 ["inputs","histories"],"every update and every sequence of reads, including empty and failed reads",
 "the existing round-trip test needs a live Redis and does not compile; it reads once",
 [R],[("SendUpdates argument encoding","core/internal/statestore/redis/redis.go SendUpdates"),("GetUpdates decoding and cursor","core/internal/statestore/redis/redis.go GetUpdates")],["arguments of XADD and XREAD","returned updates"])
p("C11","Redis connections are always given back to the pool",
 "Every write or read round with Redis returns each pooled connection it took, exactly once and whatever the outcome of the round, so that a server running indefinitely never exhausts its connection pool.",
 ["inputs","fault_sequences","histories"],"every batch, every reply or failure, any number of rounds",
 "exhaustion appears only after hundreds of rounds and needs a server; each round must be clean",
 [R],[("connection taken from pool per call","core/internal/statestore/redis/redis.go SendUpdates, GetUpdates")],["pool checkouts and returns"])
p("C12","In-memory replication delivers every update once, in order, with fresh ids",
 "In-memory replication passes on every update of a batch unchanged and in order, answers each with a success of its own, and gives every new ticket an id different from every id it issued before, the same id in the answer as in the delivered update. Reading returns exactly the updates delivered since the last read, in order.",
 ["inputs","histories"],"every batch, any number of batches, any clock movement that never runs backwards",
 "the memory replicator has no test; uniqueness ranges over whole histories of calls and clock readings",
 [MEM],[("getReplId: second plus counter","core/internal/statestore/memory/main.go getReplId"),("SendUpdates/GetUpdates","core/internal/statestore/memory/main.go")],["returned answers and updates"])
p("C13","Replicated updates drive each ticket's state, one key at a time",
 "Applying a replicated update changes only the named ticket: a new ticket is stored under its replication id, with that id and otherwise the replicated content, and is inactive, being marked inactive before it becomes visible; activate makes it active, deactivate makes it inactive, an assignment is stored as replicated. Updates are applied in the order received and none is dropped.",
 ["histories","inputs"],"every sequence of updates for any keys",
 "no test applies updates; ordering and frame need all sequences",
 [C],[("IncomingReplicationQueue command switch","core/internal/statestore/cache/replicatedticketcache.go IncomingReplicationQueue")],["local ticket cache contents"])
p("C14","Expiration removes what is expired, nothing else, and never revives a ticket",
 "In an expiration pass a ticket is removed when its expiration time has passed or it is inactive and older than the ticket lifetime (age counted from the unix seconds its id starts with), an inactive mark when its id is older than the ticket lifetime, an assignment when older than the ticket lifetime plus the assignment lifetime; everything else is kept unchanged. An inactive mark is never removed while its ticket stays, so expiration never makes an inactive ticket active.",
 ["inputs","configurations"],"every cache content, clock reading and configured lifetime",
 "no test runs expiration",
 [C],[("expiration closures over the three maps","core/internal/statestore/cache/replicatedticketcache.go IncomingReplicationQueue")],["local ticket cache contents"])
p("C15","Only active tickets are offered to matchmaking functions",
 "The tickets considered for an invocation's pools are exactly the cached tickets that are not marked inactive, each once. A ticket that was inactive throughout the invocation is never sent to a matchmaking function.",
 ["inputs","histories"],"every content of the ticket and inactive maps",
 "no test fills the cache; needs all overlaps of the two sets",
 [M],[("setDifference","core/main.go setDifference"),("syncMapDump","core/main.go syncMapDump")],["participants in chunks sent to matchmaking functions"])
p("C16","Chunking loses, duplicates and misplaces no participant",
 "Across the chunks sent to a matchmaking function, each valid pool holds exactly the considered tickets that pass its filters, each once and in the same relative order, and no pool that failed validation appears. Every chunk names the requested profile, carries its extensions and announces the actual number of chunks, and no chunk's accumulated participant size exceeds the limit unless a single ticket does.",
 ["inputs"],"every profile, ticket population and ticket size, any number of chunks",
 "no test produces more than one chunk",
 [M],[("chunk accumulation and request construction","core/main.go InvokeMatchmakingFunctions")],["messages on the stream to the matchmaking function"])
p("C17","A chunked request is reassembled completely",
 "Reading a chunked request returns, after exactly the announced number of chunks, a profile with the name and extensions that were sent and, for each pool that occurs in any chunk, the concatenation in arrival order of that pool's participants over all chunks; no other pool appears. If the stream fails before the last chunk, an error is returned and no profile.",
 ["inputs","fault_sequences"],"every chunk sequence, pool layout and failure position",
 "no test sends more than one chunk or a failing stream",
 ["mmf/server/server.go"],[("GetChunkedRequest merge loop","mmf/server/server.go GetChunkedRequest")],["returned profile and error"])
p("C18","Every returned match is forwarded once, after its tickets are deactivated",
 "For each match a matchmaking function streams back, a deactivation is replicated for every ticket in every roster and for nothing else, and the match is passed on to the caller unchanged and exactly once; deactivation has been requested before the match is passed on. A match with empty or missing rosters is passed on too and never crashes the server.",
 ["inputs","schedules","configurations"],"every match shape, every number of matches, both settings of the wait-for-deactivation option",
 "no test runs an invocation; roster shapes and goroutine interleavings are unbounded",
 [M],[("per-match goroutine","core/main.go InvokeMatchmakingFunctions"),("fan-in goroutine","core/main.go InvokeMatchmakingFunctions")],["replication queue","stream to the caller"])
p("C19","Assignments are replicated for exactly the tickets of the roster",
 "Assigning a roster replicates, for each roster ticket with an id and in roster order, exactly one assignment update carrying that id and the encoded assignment, and nothing for tickets without an id; it then waits for the answer to every one of them. A request without a roster or without an assignment is refused as an invalid argument and replicates nothing.",
 ["inputs","fault_sequences"],"every roster and every pattern of answers",
 "no test calls the handler",
 [M],[("CreateAssignments send and collect loops","core/main.go CreateAssignments")],["replication queue","status of the call"])
p("C20","Watching assignments streams only true assignments, one per watched id",
 "Each message streamed to an assignment watcher names a watched ticket id and carries the assignment stored for that id; there is at most one message per watched entry, and a watcher leaving early never crashes the server.",
 ["schedules","inputs"],"every id list, every moment at which assignments appear, every interleaving with the timeout",
 "no test watches; the failing schedule needs an assignment arriving after the watch has ended",
 [M],[("WatchAssignments polling goroutines and result loop","core/main.go WatchAssignments")],["stream to the watcher"])
p("C21","One-on-one matching pairs tickets disjointly and completely",
 "From n participants in total the one-on-one matchmaking function streams exactly floor(n/2) matches, each with one roster of exactly two tickets, no participant position used twice, and every ticket taken from the request.",
 ["inputs"],"every number of pools and participants",
 "no test runs the function",
 ["functions/golang/soloduel/soloduel.go"],[("Run: roster of two re-created per match","functions/golang/soloduel/soloduel.go Run")],["streamed matches"])
p("C22","Battle-royale matches are consecutive full groups of the competitive pool",
 "From n participants in the competitive pool the battle-royale matchmaking function streams exactly floor(n/s) matches for match size s, the k-th holding one roster with exactly the k-th group of s consecutive participants; tickets of other pools are never used.",
 ["inputs"],"every number of participants",
 "no test runs the function",
 ["functions/golang/battleroyale/battleroyale.go"],[("Run: stride loop","functions/golang/battleroyale/battleroyale.go Run")],["streamed matches"])
p("C23","Team-shooter matches are complete teams with nobody used twice",
 "Each match the team-shooter function streams has two rosters of five tickets, one tank, one healer and three dps in each, taken from the pools of those names in pool order, and no participant position is used in two places. It keeps producing matches while all pools can still supply a full match (up to its maximum) and streams nothing incomplete.",
 ["inputs"],"every size of the three pools",
 "no test runs the function",
 ["functions/golang/teamshooter/teamshooter.go"],[("Run: per-pool cursors","functions/golang/teamshooter/teamshooter.go Run")],["streamed matches"])
p("C24","Logging configuration maps to the documented behaviour and never crashes",
 "Every recognised log level name, in any letter case, selects that level and every other value falls back to the documented default; debug mode is reported exactly when the configured level is debug.",
 ["inputs","configurations"],"every configured level string",
 "tests sample a few level names",
 ["core/internal/logging/logging.go"],[("toLevel","core/internal/logging/logging.go")],["configured log level"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
