#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from anywhere; rewrites the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

BM = "pkg/broker/memory/memory.go"; BS = "pkg/broker/memory/subscriber.go"
WG = "pkg/graph/memory/wg.go"; ST = "pkg/store/memory/store.go"; CL = "pkg/cache/memory/links.go"
PL = "pkg/plan/simple/simple.go"; MJ = "pkg/space/marshal/json/json.go"; MM = "pkg/space/marshal/marshal.go"

# ---------------------------------------------------------------- broker
prop("B01", "Accepted messages are delivered exactly once",
 """While a broker session is open, every message whose publish call reported success is handed to exactly one handler
 invocation of one subscriber of the same topic, with its id, type, payload and attributes unchanged, or is still waiting in
 that topic for a future receive; a message whose publish call reported an error is never delivered. Nothing is duplicated,
 invented or delivered on another topic, whatever the number of topics, publishers and subscribers, whichever handlers fail and
 whichever subscriptions come and go. The only permitted losses are at most one waiting message per receive call that timed out
 (documented), and whatever is still waiting when the session ends.""",
 ["schedules", "histories", "inputs", "fault_sequences"],
 """every number of topics, publishers and subscribers, every capacity, every message, every interleaving of publish, receive,
 subscribe, unsubscribe, cancelled calls, timeouts and failing handlers within one open session""",
 """the tests publish at most two messages and receive one; no test counts deliveries under concurrency, failing handlers,
 timeouts or cancelled publishes""",
 [BM, BS], [("buffered channel per topic", BM), ("publish outcome chosen by one select", BM + " publishMsg"), ("receive hands one message to the handler", BS + " Receive")],
 [("topics", "queue of accepted messages of each topic", BM)], ["publish results", "handler invocations"])
prop("B02", "Messages of a topic are received in publication order",
 """For each topic, the order in which receive calls take messages is consistent with the order in which they were published: if
 the publish of A had returned success before the publish of B began, then B is never taken by a receive that completed before
 the receive that took A began. In particular a single consumer sees the messages of each sequential publisher in exactly the
 order they were published.""",
 ["schedules", "histories", "inputs"], "every set of publishers and consumers, every capacity and backlog length and every interleaving of their calls on one topic",
 "no test receives more than one message", [BM, BS], [("FIFO channel per topic", BM), ("single take per receive", BS)], [], ["publish and receive intervals of each message"])
prop("B03", "Topic capacity and timeouts bound what is queued and how long calls block",
 """A topic holds at most the configured number of accepted, not yet received messages (zero: a publish succeeds only by handing
 its message to a receiver; negative: the documented default capacity). A publish that finds no room and a receive that finds no
 message keep waiting for the timeout in force and then fail with the timeout error, neither earlier nor much later, while room
 or a message that appears before then lets them succeed at once. The timeout in force is the one given with the call, otherwise the
 one the broker was created with, otherwise the documented default.""",
 ["configurations", "inputs", "histories"], "every capacity, every positive timeout given per call or per broker or not at all, every fill level and every arrival time of the event that unblocks the call",
 "one test waits for one real 100 ms publish timeout on a zero-capacity topic; receive timeouts, defaults, capacity limits and wake-ups are not tested", [BM, BS, "pkg/broker/options.go"],
 [("channel capacity", BM + " Pub/Sub"), ("timer raced against the queue", BM + " publishMsg, " + BS + " Receive")], [], ["result and (virtual) duration of each publish and receive"])
prop("B04", "Subscriptions are distinct, and unsubscribing silences exactly one of them",
 """Every subscription has its own non-empty unique id, and reports that id and the topic it was created for for as long as it exists. Once an
 unsubscribe call has returned, no receive started afterwards on that subscription runs a handler - it fails with the
 inactive-subscription error - and a receive blocked at that time returns without taking a message. Unsubscribing can be repeated and
 called concurrently without error or crash, and neither affects any other subscription nor any waiting message.""",
 ["schedules", "histories"], "every number of subscriptions per topic and every interleaving of unsubscribe with itself, with receives, publishes and other subscriptions",
 "the tests unsubscribe sequentially, one subscription at a time, with no receive in flight", [BS, BM],
 [("active flag and exit channel", BS)], [("active", "whether the subscription may receive", BS)], ["receive results", "handler invocations"])
prop("B05", "Each broker session starts clean and is independent of earlier ones",
 """Publishing and subscribing succeed only while a session is open and otherwise fail with the not-connected error, and opening an
 open or closing a closed broker changes nothing. A session opened after a close starts clean: no message accepted by an earlier session
 is ever delivered to a subscription of the later one, subscriptions of the earlier session stay unusable, and every topic name - used before or not - works.
 Nothing that belongs to an ended session (its context, its shutdown, calls still in progress) ends or disturbs the session opened after it.""",
 ["schedules", "histories"], "every sequence and interleaving of open, close, publish, subscribe, receive and cancellation of session contexts, over any number of sessions and topics of one broker",
 "no test reopens a broker; open and close are only called twice in a row", [BM, BS],
 [("connected flag", BM), ("per-session exit channel", BM + " Open/Close"), ("session goroutine", BM + " run")], [("connected", "a session is open", BM)], ["results of publish, subscribe, receive", "messages delivered after reopening"])
prop("B06", "Cancelling a call's context ends that call alone and is reported",
 """When the context of a blocked publish or receive is cancelled, that call returns promptly without having queued or taken a message, a publish reports an
 error, and the broker, its session, its other callers and its waiting messages are unaffected. A publish never reports success for a message it did not accept. When the context the session was opened
 with is cancelled, the session ends as if it had been closed, and calls blocked on it return. A message handler is given a context that ends when that of its
 receive is cancelled, and not while the receive is neither cancelled nor otherwise ended.""",
 ["schedules", "fault_sequences", "histories"], "every moment of cancellation relative to every other broker call, for any number of concurrent callers",
 "no test cancels a context", [BM, BS], [("context raced against the queue", BM + " publishMsg, " + BS + " Receive"), ("session goroutine watches the session context", BM + " run")],
 [], ["results of cancelled and of other calls", "messages delivered afterwards"])
prop("B07", "Concurrent use of the broker is free of races, crashes, deadlocks and leaks",
 """Any concurrent mix of opening, closing, publishing, subscribing, receiving and unsubscribing on one broker, with contexts cancelled at any time,
 executes without data race and without panic, and no set of these calls blocks one another forever. After the session has ended every blocked call on it
 returns, and no goroutine started by the broker outlives the session and its calls. Nor do such goroutines accumulate in an open session: their number does not grow with the number of calls that have returned.""",
 ["schedules", "histories"], "every interleaving of any number of concurrent broker and subscription calls and cancellations",
 "the only concurrent test issues two publishes on one topic", [BM, BS], [("RWMutex", BM), ("RWMutex", BS), ("exit channels", BM)], [], ["race detector reports", "panics", "goroutines alive after close"])
# ---------------------------------------------------------------- pipeline
prop("D01", "Ingesting publishes exactly the marshaled data, or nothing",
 """Every successful ingest call publishes exactly one message on the given topic of the given broker, whose type is the given type and whose payload is
 what the marshaler in force produces for the given data; the marshaler in force is the one given with the call, otherwise the one the ingester was created with, otherwise JSON.
 If marshaling fails, its error is returned and nothing is published; if publishing fails, its error is returned.""",
 ["inputs", "configurations", "fault_sequences"], "every data value, topic, message type, marshaler configuration and marshal or publish failure, also concurrently through one ingester",
 "the ingester has no tests", ["pkg/broker/ingester/simple/ingester.go"], [("marshaler selection", "pkg/broker/ingester/simple/ingester.go Ingest")], [], ["messages seen by the broker", "returned errors"])
prop("D02", "Digest hands every received message to the handler until told to stop",
 """Digest hands every message it receives from the subscription, in the order received and each exactly once, to the handler in force: the one given with the
 call, otherwise the one the digester was created with, otherwise the documented default, which copies exactly the payload bytes to standard output. It keeps going
 after successful messages, and returns - promptly and with the error, where there is one - when a handler fails, a receive fails, the context is cancelled, the
 subscription is ended or the broker session ends. The context a handler is given ends when that of the digest does.""",
 ["inputs", "histories", "fault_sequences", "schedules"], "every message sequence, handler configuration, position of the failing message and moment of cancellation, unsubscribe or close",
 "the digester and the default handler have no tests", ["pkg/broker/digester/simple/digester.go", "pkg/broker/handlers/handlers.go", BS],
 [("receive loop", "pkg/broker/digester/simple/digester.go handle")], [], ["handler invocations", "standard output", "return of Digest"])
# ---------------------------------------------------------------- graph
prop("G01", "All views of a graph agree with the operations performed on it",
 """After any sequence of operations on a directed or undirected in-memory graph, the nodes it lists, the node it finds for each unique id, the edge it finds for each
 ordered pair, the edges it lists and the nodes it reports as directly reachable from each node are exactly those of an abstract graph to which
 the same successful operations were applied, with edges symmetric in the undirected graph only. Lookups of absent nodes and edges fail with the documented not-found errors,
 queries change nothing, and operations that fail change nothing.""",
 ["histories", "inputs", "configurations"], "every finite sequence of add, upsert, remove, link, unlink and query operations over any set of unique ids, on both graph kinds",
 "the tests apply one fixed sequence over at most two linked nodes and compare counts", [WG, "pkg/graph/memory/wdg.go", "pkg/graph/memory/wug.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"],
 [("index of nodes by unique id kept next to the gonum graph", WG)], [("nodes", "nodes by unique id", WG), ("WeightedGraphBuilder", "gonum graph by numeric id", WG)], ["Node, Nodes, Edge, Edges, From"])
prop("G02", "A unique id names one node: duplicates are refused, upserts replace",
 """A graph never contains two nodes with the same unique id, and two distinct unique ids never share a node: nodes obtained from the graph's node constructor can
 all be added, in any order and however many were created before the first was added. Adding a node whose unique id is already present fails with the duplicate-node error and changes nothing,
 unless upsert is requested: then the given node and its entity replace the previous ones in every view, including as end point of every existing edge, and all its edges
 are kept.""",
 ["histories", "inputs"], "every sequence of node construction, addition with and without upsert, removal and linking, with unique ids and numeric ids reused in any way the constructor allows",
 "the tests add one node twice without upsert; upserts are only used to load a fixture and never observed", [WG, "pkg/graph/memory/node.go"], [("numeric id allocation", WG + " NewNode"), ("duplicate check and upsert", WG + " AddNode")], [("nodes", "nodes by unique id", WG)], ["NewNode, AddNode, Node, Nodes, From, Edge end points"])
prop("G03", "Removing a node or a link removes exactly that",
 """Removing a node makes it unfindable and removes every edge to and from it, and nothing else; adding an entity with the same unique id again yields a node without edges.
 Unlinking two nodes removes the edge from the first to the second (in an undirected graph the edge between them) and nothing else. Removing what does not exist succeeds and changes nothing.""",
 ["histories", "inputs", "configurations"], "every graph state reachable by the operations, and every node or ordered pair of ids, present or absent, in both graph kinds",
 "the tests remove one isolated node and one edge and look only at the removed item", [WG], [("node and index removal", WG + " RemoveNode"), ("edge removal", WG + " Unlink")], [], ["all views before and after"])
prop("G04", "Linking creates at most one edge per pair and never alters an existing one",
 """Linking two existing distinct nodes that are not linked creates one edge from the first to the second with exactly the given unique id, weight and attributes
 (a DOT id, if given, takes the place of the unique id, otherwise the unique id is its DOT id), which every later lookup returns until it is unlinked.
 Seen from its other end it is the same edge. Linking nodes that are already linked returns the
 existing edge, its id, weight and attributes unchanged. Linking an unknown node fails with the node-not-found error, and linking a node to itself fails with an error; neither changes the graph.""",
 ["histories", "inputs", "configurations"], "every graph state, every ordered pair of ids and every combination of link options, in both graph kinds",
 "the tests link one pair twice without options that differ in id or attributes and never from the other direction", [WG, "pkg/graph/memory/edge.go"], [("existing edge lookup before creation", WG + " Link"), ("edge construction", "pkg/graph/memory/edge.go NewEdge")], [], ["returned edges, Edge, Edges"])
prop("G05", "A subgraph contains exactly the nodes within reach and the edges between them",
 """For every node and depth d >= 0, the subgraph holds exactly the nodes reachable from it over at most d edges, and between them exactly the edges of the source graph
 (for an undirected source, in both directions), each with the weight and the attributes of that very edge. It is independent of its source: taking it changes nothing, and later changes to
 either graph or to an edge's attributes in one do not show in the other, and both can be used at the same time. The same holds for a subgraph of a subgraph. It is complete or fails, also when attributes cannot be read. For an unknown node it fails with the node-not-found error.""",
 ["inputs", "histories", "configurations"], "every source graph of either kind, with any weights and attributes, every root and every depth",
 "the tests compare node counts for one fixture and three depths; edges of the subgraph are never looked at", [WG], [("breadth-first walk cut at depth", WG + " SubGraph"), ("edge copy", WG + " SubGraph")], [], ["nodes, edges, weights and attributes of the subgraph"])
prop("G06", "The DOT export is a faithful image of the graph and leaves it usable",
 """For every graph whose nodes have distinct DOT ids, the DOT text parses as a directed or undirected graph of matching kind and name (the graph's DOT id, or else its unique id), with exactly one node statement per node and
 one edge statement per edge, each carrying exactly that node's or edge's attributes. The attributers a graph reports to DOT encoders are those it was configured with. Exporting any number of times, also concurrently, changes nothing, and every other operation on the graph still completes afterwards.""",
 ["inputs", "histories", "configurations", "schedules"], "every graph of either kind, any names, ids and attributes that DOT can quote, and every continuation after the export",
 "the tests export one empty graph once and check the text is not empty", [WG, "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go", "pkg/attrs/memory/dot.go"], [("gonum DOT encoder over the graph", WG + " DOT"), ("attribute encoding", "pkg/graph/memory/node.go, edge.go Attributes")], [], ["the DOT text, parsed", "operations after export"])
prop("G07", "Concurrent use of a graph is linearizable and free of races and deadlocks",
 """Concurrent calls on one in-memory graph - creating, adding, upserting and removing nodes, linking, unlinking, lookups, listings, subgraphs and DOT exports - execute without data race,
 panic or deadlock. The results of these calls, whole listings and subgraphs included, are those of some sequential order of the calls consistent with real time, and
 when no call is running all views agree with one another.""",
 ["schedules", "histories"], "every interleaving of any number of concurrent graph calls",
 "no graph test is concurrent", [WG], [("RWMutex over index and gonum graph", WG)], [("mu", "graph lock", WG)], ["race detector reports", "results and intervals of calls", "views at quiescence"])
# ---------------------------------------------------------------- store
prop("S01", "The store returns exactly what was stored, until it is deleted",
 """After any sequence of operations, getting a unique id that was added and not deleted returns an entity with the unique id, type and attributes it was stored with
 (attributes given with the add take precedence), and getting any other id fails with the entity-not-found error. Adding a present id without upsert fails with the already-exists error and changes nothing; deleting or unlinking
 what is absent succeeds; linking an absent entity fails with the entity-not-found error. What the backing graph refuses fails with the error of the graph and changes nothing. The store's graph handle shows exactly the stored entities and the links made between them and not undone.""",
 ["histories", "inputs", "configurations"], "every sequence of store operations over any ids, entities, attributes and either backing graph kind",
 "each operation is tested once on a fresh store; attributes and the graph handle are never compared", [ST, WG], [("one graph node per entity", ST + " add/get"), ("error translation", ST)], [("g", "backing graph", ST)], ["Get, errors, graph handle"])
prop("S02", "Store upsert replaces the entity and keeps its links",
 """Adding an entity with upsert always succeeds; afterwards the store returns the new entity - its type and attributes - for that unique id, whether or not one was stored before, and never a mix of old and new.
 The number of stored entities grows by one only if the id was absent, and every link of the replaced entity is kept.""",
 ["histories", "inputs"], "every store state, every entity and every chain of adds, upserts, deletes and links",
 "the one upsert test uses two different unique ids and observes nothing afterwards", [ST, WG], [("upsert", ST + " add"), ("node replacement", WG + " AddNode")], [], ["Get, graph handle after upsert"])
prop("S03", "Bulk store operations equal their single operations in order, in one step",
 """A bulk add, delete, link or unlink leaves the store exactly as applying the single operation to the elements in order does, stopping at and returning the first error; a bulk get
 returns the entities in the order of the ids asked for (duplicates included), or the error of an id that is absent. To concurrent store calls a bulk operation is one step: no other call sees part of it done.""",
 ["inputs", "histories", "schedules"], "every list of entities or ids - empty, with duplicates, with absent or present ids at any position - in every store state, under every interleaving with other store calls",
 "bulk operations are tested once each on five fresh entities, without failures, duplicates or concurrency", [ST], [("lock held across the loop", ST), ("stop at first error", ST)], [], ["store contents after bulk calls", "results of concurrent calls"])
prop("S04", "Concurrent use of the store is linearizable and free of races and deadlocks",
 """Concurrent calls on one store execute without data race, panic or deadlock, and their results are those of some sequential order of the calls consistent with real time: of
 concurrent adds of one id exactly one succeeds, a get never sees a deleted or half-replaced entity, and a link or unlink that returned is visible to later calls through the graph handle.""",
 ["schedules", "histories"], "every interleaving of any number of concurrent store calls, including bulk calls and reads through the graph handle",
 "no store test is concurrent", [ST, WG], [("RWMutex", ST)], [("mu", "store lock", ST)], ["race detector reports", "results and intervals of calls"])
# ---------------------------------------------------------------- cache
prop("C01", "Every cached link is found from both its ends, by value of the unique id",
 """After any sequence of operations, asking the cache for the links from a unique id returns exactly one link per distinct target put and not deleted, and asking for the links to a unique id exactly
 one per distinct source; both answers are about the same set of links. Unique ids are the same if their string values are, no matter which value carries them. Ids with no links yield no links and no error,
 and bulk lookups return for every requested id what the single lookup returns.""",
 ["histories", "inputs"], "every sequence of put, delete, clear and lookup calls over any links, including several links sharing a source or a target, self links and equal ids held in different values",
 "every test links each source to one target only, and looks it up with the very id value it was put with", [CL], [("two indexes, by source and by target", CL)], [("from", "links by source then target", CL), ("to", "links by target then source", CL)], ["GetFrom, GetTo, BulkGetFrom, BulkGetTo"])
prop("C02", "Putting a link keeps the first one unless upsert is requested",
 """Putting a link between a pair that already has one succeeds and changes nothing, unless upsert is requested, in which case the new link replaces the old one; either way both lookup directions return the same
 link - the very one that was put, with its id and attributes. A put never affects the links of any other pair, and links with swapped ends are different pairs.""",
 ["histories", "inputs"], "every sequence of puts and bulk puts, with and without upsert, over any pairs",
 "the tests put one link twice and never read the result back", [CL], [("conditional store in both indexes", CL + " put")], [], ["GetFrom, GetTo after puts"])
prop("C03", "Deleting an id removes all links to and from it, and only those",
 """After deleting a unique id no lookup, from either end, returns a link whose source or target is that id, and every other link is still found from both its ends; deleted pairs can be put again.
 A bulk delete equals deleting each id, deleting an id without links succeeds, and clearing leaves the cache empty and usable.""",
 ["histories", "inputs"], "every cache state, every id or list of ids and every continuation after the deletion",
 "the delete tests look only at the deleted id's own entries, never at those of its neighbours", [CL], [("removal from both indexes", CL + " delete")], [], ["GetFrom, GetTo of all ids after deletion"])
prop("C04", "Concurrent use of the link cache is linearizable and free of races",
 """Concurrent calls on one link cache execute without data race, panic or deadlock, and their results are those of some sequential order of the calls consistent with real time, in which every bulk
 call is one step.""",
 ["schedules", "histories"], "every interleaving of any number of concurrent cache calls", "no cache test is concurrent", [CL], [("RWMutex", CL)], [("mu", "cache lock", CL)], ["race detector reports", "results and intervals of calls"])
# ---------------------------------------------------------------- plan
prop("P01", "A plan holds exactly the resources added and not deleted, latest version each",
 """After any sequence of operations, getting a unique id returns the resource most recently added under that id value if it was not deleted since, and otherwise fails with the resource-not-found error; getting all returns each
 such resource exactly once and nothing else. Adding and deleting affect no other id, and deleting an absent id succeeds.""",
 ["histories", "inputs"], "every sequence of add, delete, get and get-all calls over any resources", "the tests use one resource per plan, and get-all only on an empty plan", [PL], [("index by unique id string", PL)], [("index", "resources by unique id", PL)], ["Get, GetAll"])
prop("P02", "Concurrent use of a plan is linearizable and free of races",
 """Concurrent calls on one plan execute without data race, panic or deadlock, and their results - get-all included - are those of some sequential order of the calls consistent with real time.""",
 ["schedules", "histories"], "every interleaving of any number of concurrent plan calls", "no plan test is concurrent", [PL], [("RWMutex", PL)], [("mu", "plan lock", PL)], ["race detector reports", "results and intervals of calls"])
# ---------------------------------------------------------------- space
prop("M01", "Marshaling to JSON and back preserves entities, resources, objects and links",
 """Unmarshaling what was marshaled from any entity, resource, object (with or without resource) or link yields one equal in unique id, type, attributes and every other serialized field: name, group, version, kind
 and namespaced flag of a resource, name, namespace and resource of an object, both ends of a link. Each kind is marshaled as its own kind, and the value marshaled is not changed.""",
 ["inputs"], "every value of the four kinds with arbitrary valid Unicode text in every field and any set of attributes", "the tests marshal one value of each kind and check only the error", [MJ, MM, "pkg/space/marshal/types.go"],
 [("conversion to and from plain structs", MM), ("kind selection", MJ)], [], ["fields of the value before and after"])
prop("M02", "Unmarshaling arbitrary bytes fails cleanly or yields a well-formed value",
 """Unmarshaling any bytes into any supported target returns without panic: on success the target holds a value whose fields are those of the JSON document and which marshals and unmarshals to an equal value, on error the target is unchanged.
 Bytes that are not a JSON document of the right shape are refused with an error, and marshaling or unmarshaling an unsupported type fails with the unsupported-type error.""",
 ["inputs"], "every byte string - truncated, mutated, wrongly typed, deeply nested or well-formed - and every supported and unsupported type", "four well-formed files and one unsupported type are tested", [MJ, MM], [("type switch", MJ), ("encoding/json decoding into plain structs", MJ)], [], ["error, target value"])
prop("E01", "Entities, resources, objects and links are what they were constructed from",
 """Every constructed entity, resource, object or link reports exactly the type, name, group, version, kind, namespaced flag, namespace, resource and ends it was constructed with, and the unique id, attributes and
 DOT id given as options. Without options it gets a fresh unique id, its own empty attributes shared with no other value, and the documented DOT id: the unique id for an entity or an object without resource, group/version/kind for a resource, and
 group/version/kind/namespace/name for an object with one. Setting the DOT id changes that only.""",
 ["inputs", "configurations"], "every combination of constructor arguments and options, including empty and arbitrary text", "each constructor is tested with one set of fixed values", ["pkg/space/entity/entity.go", "pkg/space/entity/resource.go", "pkg/space/entity/object.go", "pkg/space/link/link.go"], [("constructors and functional options", "pkg/space/entity, pkg/space/link")], [], ["accessors"])
prop("A01", "Attributes behave as a map, and copies are independent",
 """After any sequence of sets, getting a key returns the value last set for it or the empty string, the keys are exactly those set, each once, and the DOT attribute list and the plain-map conversion hold exactly the key-value pairs.
 Attributes created from other attributes or from a map hold the same pairs and are independent of their origin and of one another; copying from none yields empty attributes. Copying or converting attributes that cannot be read fails.""",
 ["inputs", "histories"], "every sequence of sets and gets over arbitrary keys and values, and every copy or conversion taken at any point", "the tests set one key and compare one copy immediately", ["pkg/attrs/memory/memory.go", "pkg/attrs/memory/dot.go", "pkg/attrs/attrs.go"], [("map of strings", "pkg/attrs/memory/memory.go"), ("element-wise copy", "pkg/attrs/memory/memory.go NewCopyFrom, NewFromMap")], [], ["Keys, Get, Attributes, ToMap"])
prop("U01", "Generated unique ids never repeat; given ones are kept verbatim",
 """Unique ids generated on behalf of ids, entities, links, graph edges, graphs, stores and subscriptions are non-empty and never equal to one another, however many are generated and from however many goroutines at once. A unique id made from a string has exactly that string as
 its value, always.""",
 ["schedules", "inputs"], "any number of generated ids from any number of goroutines, and every string", "the tests generate two ids and wrap one string", ["pkg/uuid/memory/default.go"], [("random UUIDs", "pkg/uuid/memory/default.go New")], [], ["String of each id"])
prop("X01", "Collections returned by queries are snapshots owned by the caller",
 """A list or map returned by a query of the graph, store, cache, plan or attributes is a snapshot: later operations on the component do not change it, and
 overwriting, truncating or appending to it changes neither the component nor the result of any other query, past or future. Lists and maps handed to bulk operations and constructors are likewise not
 retained or changed.""",
 ["histories", "inputs"], "every query and bulk operation, every component state and every modification by the caller or the component afterwards", "no test modifies a returned collection or looks at it again", [WG, ST, CL, PL, "pkg/attrs/memory/memory.go"], [("fresh slices and maps built per query", "pkg/graph/memory, pkg/store/memory, pkg/cache/memory, pkg/plan/simple")], [], ["returned collections before and after further operations"])
prop("X02", "What scrapers ingest arrives in the store and the cache, once and unaltered",
 """Take any number of scrapers run at the same time, each ingesting distinct entities, objects, resources (of its plan) and links to topics of one open in-memory broker with the JSON marshaler - giving up an attempt when its
 context ends and trying again - and any number of digests per topic whose handlers decode each message by its type and put it, singly or in bulk, into one store (entities, objects, resources) or one link cache (links). Then every value whose ingestion succeeded
 is handled exactly once, with the type and all the fields it was ingested with, and those of one scraper to one topic reach each digester in the order they were ingested; afterwards the store and its graph hold exactly the
 ingested entities, the cache exactly the ingested links, linking what the cache holds gives exactly the ingested network with its attributes, and deleting entities from both leaves exactly the rest. None of this depends on the schedule, and no data race, panic or deadlock occurs.""",
 ["inputs", "configurations", "schedules", "histories"], "every set of values, number of scrapers, topics, digesters, broker capacity, store configuration and interleaving", "the components are only tested one at a time, sequentially and mostly with one value", [BM, BS, "pkg/broker/ingester/simple/ingester.go", "pkg/broker/digester/simple/digester.go", "pkg/space/marshal/json/json.go", ST, CL, PL, "runner.go"],
 [("message type and payload tied together", "pkg/broker/ingester/simple/ingester.go Ingest"), ("one queue per topic", BM), ("links wait in the cache for their ends", CL)], [], ["values handled by the digesters", "store, graph and cache at the end"])
prop("X03", "Instances are independent of one another and leave shared values alone",
  "What one component - broker, graph, store, cache, plan, attribute set, marshaler, ingester, digester, runner - does is determined by the operations on it alone: any number of them can be used in one process, one after another or at the same time, each by its own goroutine, with the same topics, unique ids and keys or different ones, and each behaves exactly as it does when it is the only one; nothing that happens to one of them shows in, blocks or races with another. Several of them can be given the very same entities, resources, objects, links and attributes, also at the same time: none of them changes these values, and no data race occurs.",
  ["inputs", "schedules", "histories"], "every number and mix of instances, operation sequences on each, interleaving, and sharing of values among them",
  "tests use one instance of one component at a time, from one goroutine",
  ["pkg/broker/memory/memory.go", "pkg/graph/memory/wg.go", "pkg/store/memory/store.go", "pkg/cache/memory/links.go", "pkg/plan/simple/simple.go", "pkg/attrs/memory/memory.go", "pkg/space/marshal/json/json.go", "pkg/uuid/memory/default.go"],
  [("state is kept in the instance", "constructors of all components"), ("UIDs, attributes and marshaled data are made afresh", "pkg/uuid/memory, pkg/attrs/memory, pkg/space/marshal")],
  [], ["results of all operations of each instance", "the shared values at the end"])
prop("R01", "A runner hands the scraper the plan and the components it was configured with",
 """Running a scraper calls it exactly once with the given context and plan and with the store, broker and marshaler in force - those given with the run, otherwise those the runner was created with - and returns the scraper's
 error unchanged; without a plan it fails with the missing-plan error and the scraper is not called. The library's own in-memory broker, store and JSON marshaler can be used as these components. One runner can be used for any number of runs, also concurrently, and options given
 with one run do not affect another.""",
 ["configurations", "histories", "schedules"], "every combination of options given at construction and per run, any sequence or concurrent set of runs, any scraper result", "the runner has no tests", ["runner.go", "options.go", "scraper.go", "errors.go"], [("options merged into the scrape call", "runner.go Run")], [("opts", "options given at construction", "runner.go")], ["options seen by the scraper", "returned error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
