#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SP = "pkg/space/"
# ---- space values, marshalling, attributes -------------------------------------------------
prop("C01", "Space values survive a marshalling round trip",
 "Marshalling any entity, resource, object (with or without a resource) or link to JSON and unmarshalling the bytes into the same kind yields a value with the same UID, type, names, group, version, kind, namespace, namespaced flag, endpoints, nested resource and attributes. The same holds for the conversion between space values and wire structs without JSON in between.",
 ["inputs"], "every space value whose strings are valid UTF-8, of every kind, with any attribute map and with or without nested resource",
 "The tests marshal and unmarshal one fixed value per kind and only check that no error is returned; no field is compared.",
 [SP+"marshal/json/json.go", SP+"marshal/marshal.go", SP+"marshal/types.go"],
 [("type switch per kind", SP+"marshal/json/json.go Marshal/Unmarshal"), ("field by field conversion", SP+"marshal/marshal.go *ToSpace/*FromSpace")],
 observe=["Marshaler.Marshal", "Marshaler.Unmarshal", "EntityToSpace/EntityFromSpace and siblings"])
prop("C02", "Arbitrary bytes are decoded faithfully or rejected cleanly",
 "Unmarshalling any byte string into an entity, resource, object or link either returns an error and leaves the target as it was, or yields exactly the value the document describes, which marshals and unmarshals again to the same value; it never panics. It fails on a document exactly when the document is not JSON of the wire structure for that kind, and values or targets of any other kind are refused with the unsupported-type error.",
 ["inputs"], "every byte string (valid, truncated, mutated, mistyped documents) times every target kind, and every unsupported Go type",
 "The tests decode one well-formed fixture per kind and try one unsupported type.",
 [SP+"marshal/json/json.go", SP+"marshal/marshal.go"],
 [("decode into wire struct before assigning the target", SP+"marshal/json/json.go Unmarshal")],
 observe=["Marshaler.Unmarshal", "Marshaler.Marshal"])
prop("C03", "Marshalled bytes are the documented wire document",
 "The bytes produced for a space value are one JSON document with exactly the documented keys (uid, type, attrs, name, group, version, kind, namespaced, namespace, resource, from, to) for that value's kind, carrying that value's data, so that an independent JSON reader recovers it; attrs is left out only when there are no attributes and resource only when there is none. A value is always encoded as its most specific kind: a resource as a resource, an object as an object, anything else with a UID, type and attributes as an entity.",
 ["inputs"], "every space value of every kind, including graph nodes and user-defined implementations of the interfaces",
 "The tests never look at the bytes produced.",
 [SP+"marshal/json/json.go", SP+"marshal/types.go", SP+"marshal/marshal.go"],
 [("json struct tags", SP+"marshal/types.go"), ("kind precedence in the type switch", SP+"marshal/json/json.go Marshal")],
 observe=["Marshaler.Marshal"])
prop("C04", "A failing attribute source is reported, never swallowed",
 "When reading the attributes of a value fails at any point (listing the keys or reading any one value), converting it, marshalling it, turning the attributes into a map or copying them returns an error and no partial result (the DOT attribute list, which cannot carry an error, is empty); the same source without the fault gives the complete result. An operation given a context reads the attributes under that context, and if that ends, at any point, gives an error or the complete result. For an object this covers its own attributes and those of its resource.",
 ["fault_sequences", "inputs"], "every position of the first failing attribute read, for every kind of value and any number of attributes",
 "The only attribute store in the tests never fails, so no error path of the attribute readers is executed.",
 ["pkg/attrs/attrs.go", "pkg/attrs/memory/memory.go", SP+"marshal/marshal.go", SP+"marshal/json/json.go"],
 [("error propagation from Keys and Get", "pkg/attrs/attrs.go ToMap, pkg/attrs/memory/memory.go NewCopyFrom")],
 observe=["attrs.ToMap", "memory.NewCopyFrom", "*FromSpace", "Marshaler.Marshal"])
prop("C05", "Constructed values report exactly what they were given",
 "An entity, resource, object, link, graph node or graph edge reports exactly the UID, type, names, flags, endpoints, weight, attributes and DOT ID it was constructed with; without a UID it gets a fresh one that no other value shares, without attributes an empty set of its own, without a weight an edge has the default weight. A DOT ID that was not given is the UID for entities and edges, group/version/kind for resources, group/version/kind/namespace/name for objects with a resource and the UID for those without, and a node takes its entity's; an edge given a DOT ID takes it as its UID, as documented, and setting a DOT ID later changes only that. A reversed edge is the same edge with its ends swapped.",
 ["inputs", "configurations"], "every combination of options and every string, for all constructors",
 "The tests construct a handful of values with fixed names and check one or two getters each.",
 [SP+"entity/entity.go", SP+"entity/resource.go", SP+"entity/object.go", SP+"link/link.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go", "pkg/uuid/memory/default.go"],
 [("option application and defaulting", "New, NewResource, NewObject, link.New, NewNode, NewEdge")],
 observe=["getters of the constructed values"])
prop("C06", "Attributes behave as a string map and copies are independent",
 "After any sequence of sets, the keys are exactly the keys set, each once, each reading back its latest value, a missing key reads as the empty string, and the DOT attribute list and the map conversion show the same pairs. Attributes copied from other attributes or from a map, including absent ones, start equal to the source and afterwards neither side sees changes made to the other.",
 ["histories", "inputs"], "every sequence of set, read and copy operations over any keys and values (empty ones included)",
 "The tests set one key once and never modify a copy or its source.",
 ["pkg/attrs/memory/memory.go", "pkg/attrs/memory/dot.go", "pkg/attrs/attrs.go"],
 [("copying into a new map", "pkg/attrs/memory/memory.go NewCopyFrom, NewFromMap")],
 observe=["Keys, Get, Set, Attributes, attrs.ToMap, memory.DOTAttrs"])

prop("C07", "Reading and marshalling change nothing and may be done by many at once",
 "Reading a space value, graph node or edge, converting it to its wire struct, marshalling it, copying its attributes or listing them for DOT changes nothing about it: it reads and marshals the same before and after, however often it is done. One value, one marshaler and one unmarshaler may be used by any number of goroutines at once, and amid another use: each use gives what it would give alone, what comes out of one is not changed by any other, and no schedule makes them race on memory.",
 ["schedules", "inputs"], "every set of shared values, every codec shared by any number of goroutines, every interleaving of their reads, conversions, marshals and unmarshals",
 "The tests make a marshaler for each call and use it from one goroutine.",
 [SP+"marshal/json/json.go", SP+"marshal/marshal.go", SP+"entity/entity.go", SP+"entity/resource.go", SP+"entity/object.go", SP+"link/link.go", "pkg/attrs/memory/memory.go", "pkg/attrs/memory/dot.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"],
 [("marshalling without state", "Marshaler.Marshal, Marshaler.Unmarshal"), ("conversion into fresh wire structs", "pkg/space/marshal/marshal.go")],
 observe=["bytes and values each goroutine gets", "getters afterwards", "race detector reports"])

# ---- graph ---------------------------------------------------------------------------------
GF = ["pkg/graph/memory/wg.go", "pkg/graph/memory/wdg.go", "pkg/graph/memory/wug.go", "pkg/graph/memory/edge.go", "pkg/graph/memory/node.go"]
prop("G01", "The graph agrees with a reference model over any history",
 "After any sequence of adding and removing nodes, linking and unlinking, every query (a node, all nodes, an edge, all edges, the nodes directly reachable from a node) of a directed or undirected graph gives what a plain mathematical graph gives, whatever UID object names a node. Linking two linked nodes returns the existing edge unchanged, operations naming unknown nodes fail with the not-found error or do nothing as documented and change nothing, and removing a node removes exactly it and its links. No operation panics, including linking a node to itself, which is refused.",
 ["histories", "inputs"], "every finite sequence of graph operations over any UIDs, weights and attributes, on directed and undirected graphs",
 "The tests run one short fixed sequence with two nodes and one edge; no test removes a linked node, reuses a freed slot, or asks for edges in both directions.",
 GF, [("UID index beside the gonum graph", "pkg/graph/memory/wg.go nodes"), ("existing edge returned by Link", "pkg/graph/memory/wg.go Link")],
 state=[("nodes", "UID to node index, must agree with the gonum graph", "pkg/graph/memory/wg.go WG")],
 observe=["Node, Nodes, Edge, Edges, From"])
prop("G02", "Duplicate adds are refused and upserts replace the node everywhere",
 "Adding a node whose UID is already in the graph fails with the duplicate-node error and changes nothing, unless upsert is requested. An upsert makes every view of the graph (lookup, node list, neighbours, edge endpoints, DOT, subgraphs) show the new node, exactly once, and keeps all its links with their UIDs, DOT IDs, weights and attributes.",
 ["histories", "inputs"], "every history in which a UID is added again, with or without upsert, with a node made by the graph or by the caller, at any point between links and removals",
 "The tests add one node twice without links and never look at what an upsert did.",
 GF, [("upsert branch of AddNode", "pkg/graph/memory/wg.go AddNode"), ("NewNode for a known UID", "pkg/graph/memory/wg.go NewNode")],
 observe=["AddNode, Node, Nodes, From, Edge, Edges, SubGraph"])
prop("G03", "Nodes of different entities never become one node",
 "However creating nodes through the graph is interleaved with adding, removing and linking them, every node that was added for a distinct UID is a node of its own in the graph, with its own links, until it is removed; creating a node does not put it in the graph, and two nodes one graph created never get the same numeric ID, nor that of a node in the graph, so that each can be added at any time. Adding a node whose numeric ID belongs to a different node in the graph never merges the two: it is refused (it may panic, as documented) and the graph stays as it was.",
 ["histories", "schedules"], "every order of creating, adding, removing and linking nodes, sequential or concurrent, with numeric IDs chosen by the graph or by the caller",
 "Every test adds each node right after creating it, the one order in which numeric IDs cannot clash.",
 GF, [("numeric ID allocation", "pkg/graph/memory/wg.go NewNode"), ("uniqueness check", "pkg/graph/memory/wg.go AddNode")],
 observe=["NewNode, AddNode, Nodes, Link, Edges"])
prop("G04", "A subgraph is the depth-bounded induced subgraph",
 "The subgraph of a node up to depth d contains exactly the nodes reachable from it in at most d steps and exactly the links the graph has between those nodes, in the same direction, each with its own weight and attributes. It is of the same directedness as the graph and independent of it: changing the one, link attributes included, does not change the other. It has the UID and DOT ID given to it, else ones of its own; an unknown root fails with the not-found error.",
 ["inputs", "histories"], "every directed or undirected weighted attributed graph, root and depth of 0 or more",
 "One fixed graph, three depths, and only the number of nodes is compared; no link of a subgraph is ever looked at.",
 ["pkg/graph/memory/wg.go"], [("breadth first walk bounded by depth, then relinking", "pkg/graph/memory/wg.go SubGraph")],
 observe=["SubGraph, then Nodes, Edge, Edges, From of the result"])
prop("G05", "The DOT export is a faithful drawing and leaves the graph usable",
 "The DOT text is a valid DOT document, directed or not as the graph is and named by its DOT ID, that holds exactly the graph's nodes under their DOT IDs, exactly its links, the attributes of each, and the configured graph, node and edge defaults. Exporting changes nothing, and every operation still works afterwards.",
 ["inputs", "histories", "configurations"], "every graph with distinct DOT IDs, any attribute text, any DOT options, exported at any point of a history",
 "The test exports an empty graph and checks that the text is not empty; nothing is done with the graph afterwards.",
 ["pkg/graph/memory/wg.go", "pkg/graph/memory/node.go", "pkg/graph/memory/edge.go"],
 [("gonum DOT encoder over the builder", "pkg/graph/memory/wg.go DOT"), ("attribute lists", "node.go and edge.go Attributes")],
 observe=["DOT, parsed by an independent DOT parser"])
prop("G06", "Concurrent graph operations are atomic",
 "When several goroutines use one graph at once, every operation appears to take effect at one instant between its call and its return, in an order that explains all results: concurrent links of one pair agree on one edge, a link never brings back a removed node, a removal never hits a node added meanwhile. No schedule makes an operation deadlock, panic or race on the graph's memory.",
 ["schedules", "histories"], "every interleaving of graph operations issued by any number of goroutines on one graph",
 "No test uses a graph from more than one goroutine.",
 ["pkg/graph/memory/wg.go"], [("read-write mutex held across check and update", "pkg/graph/memory/wg.go")],
 state=[("mu", "guards nodes and the gonum graph", "pkg/graph/memory/wg.go WG")],
 observe=["results of concurrent operations, race detector, final state"])

# ---- store ---------------------------------------------------------------------------------
ST = ["pkg/store/memory/store.go"]
prop("S01", "The store agrees with a reference model over any history",
 "After any sequence of store operations, getting a stored entity returns the entity last added under that UID, with its type and with its attributes (those given when adding it, else its own), and getting any other fails with the not-found error; adding a stored UID again fails with the already-exists error unless upsert is requested, when it replaces the entity and keeps its links. Linking needs both entities stored, deleting an entity deletes its links, deleting or unlinking what is not there does nothing, and the graph handle always shows exactly the stored entities and links, with the link attributes given.",
 ["histories", "inputs", "configurations"], "every finite sequence of add, upsert, get, delete, link, unlink on a store over an undirected (default) or directed graph",
 "Each test performs one operation on an otherwise empty store; upsert, link and unlink are only checked for a nil error.",
 ST+["pkg/graph/memory/wg.go"], [("delegation to the graph with error translation", "pkg/store/memory/store.go")],
 observe=["Get, Graph and the graph's queries"])
prop("S02", "A bulk store operation equals its single operations in order",
 "A bulk add, get, delete, link or unlink has the same effect and outcome as the single operations performed one after the other in the order given, stopping at the first that fails and reporting its error. In particular bulk get returns one entity per UID asked for, in that order, repeated UIDs included, or an error if any is missing.",
 ["histories", "inputs"], "every batch (empty, with repeats, with unknown or already stored members) in any store state, with and without upsert",
 "The tests run each bulk operation once on five fresh entities and check only the error and the length of the result, never which entity is at which place.",
 ST, [("loops over the single operations", "pkg/store/memory/store.go Bulk*")],
 observe=["BulkAdd, BulkGet, BulkDelete, BulkLink, BulkUnlink against the single operations"])
prop("S03", "Concurrent store operations, bulk included, are atomic",
 "When several goroutines use one store at once, every operation, each bulk operation as a whole included, appears to take effect at one instant between its call and its return, in an order that explains all results. No schedule makes a store operation deadlock, panic or race on the store's memory. This holds for a backing graph with no lock of its own too: the store never calls an operation that changes its graph while another of its calls to the graph is under way.",
 ["schedules", "histories"], "every interleaving of single and bulk operations issued by any number of goroutines on one store",
 "No test uses a store from more than one goroutine.",
 ST+["pkg/graph/memory/wg.go"], [("store mutex held for a whole (bulk) operation", "pkg/store/memory/store.go")],
 observe=["results of concurrent operations, race detector, final state"])
prop("S04", "Failures of the backing graph reach the store's caller",
 "When the graph behind a store fails during any store operation, that operation returns an error that identifies the failure (the graph's error, or the store's own counterpart for not found and duplicate), and a bulk operation does not go on past it. An operation that reports success has been carried out on the backing graph, under the caller's context.",
 ["fault_sequences", "histories"], "every position of a failing graph call in every store operation and history",
 "The tests only run on the in-memory graph, which never fails in them.",
 ST, [("error propagation and translation", "pkg/store/memory/store.go")],
 observe=["errors returned by a store over a fault-injecting graph"])

# ---- cache, plan ---------------------------------------------------------------------------
CA = ["pkg/cache/memory/links.go"]
prop("K01", "The links cache agrees with a reference model over any history",
 "After any sequence of puts, upserts, deletes, clears and their bulk forms, the links from a UID and the links to a UID are exactly those the cache holds, each once: at most one link per ordered pair of endpoints, the first one put unless a later upsert replaced it. UIDs are compared by value, so any UID object with the same text finds them; the two directions always agree, and bulk reads give for each UID asked what the single read gives.",
 ["histories", "inputs"], "every finite sequence of cache operations over any UIDs, including several links from or to one UID and self links",
 "In the tests no UID ever has more than one link from or to it, and every lookup uses the very UID object stored.",
 CA, [("two indexes, by origin and by end", "pkg/cache/memory/links.go from, to")],
 state=[("from/to", "the same links indexed by origin and by end", "pkg/cache/memory/links.go Links")],
 observe=["GetFrom, GetTo, BulkGetFrom, BulkGetTo"])
prop("K02", "Deleting from the cache is complete and touches nothing else",
 "After deleting a UID, no read from either side returns a link that begins or ends at it, and every other link is still returned from both sides; a later put of a link at that UID works as in a fresh cache. Bulk delete equals deleting each UID, clear leaves nothing, and a result returned earlier is not changed by any later operation, nor the cache by changing the result.",
 ["histories", "inputs"], "every cache content and every UID or set of UIDs deleted, read from the deleted UID and from every peer",
 "The tests read back only the deleted UID itself, never its peers.",
 CA, [("removal from both indexes", "pkg/cache/memory/links.go delete")],
 observe=["GetFrom and GetTo of the UID and of all its peers"])
prop("K03", "Concurrent cache operations, bulk included, are atomic",
 "When several goroutines use one links cache at once, every operation, each bulk operation as a whole included, appears to take effect at one instant between its call and its return, in an order that explains all results. No schedule makes an operation deadlock, panic or race on the cache's memory.",
 ["schedules", "histories"], "every interleaving of cache operations issued by any number of goroutines",
 "No test uses a cache from more than one goroutine.",
 CA, [("read-write mutex", "pkg/cache/memory/links.go mu")], observe=["results of concurrent operations, race detector"])
prop("L01", "A scrape plan agrees with a map over any history",
 "After any sequence of adds and deletes, a plan returns for each UID exactly the resource last added under it, or the not-found error if there is none, and lists exactly its resources, each once. UIDs are compared by value, deleting what is not there does nothing, and a list returned earlier is not changed by later operations, nor the plan by changing the list.",
 ["histories", "inputs"], "every finite sequence of add, get, get-all, delete over any UIDs, including re-adding a UID",
 "The tests do one operation each; the listing is only checked on an empty plan.",
 ["pkg/plan/simple/simple.go"], [("map keyed by UID text", "pkg/plan/simple/simple.go index")], observe=["Get, GetAll"])
prop("L02", "Concurrent plan operations are atomic",
 "When several goroutines use one plan at once, every operation appears to take effect at one instant between its call and its return, in an order that explains all results. No schedule makes an operation deadlock, panic or race on the plan's memory.",
 ["schedules", "histories"], "every interleaving of plan operations issued by any number of goroutines",
 "No test uses a plan from more than one goroutine.",
 ["pkg/plan/simple/simple.go"], [("read-write mutex", "pkg/plan/simple/simple.go mu")], observe=["results of concurrent operations, race detector"])

# ---- broker --------------------------------------------------------------------------------
BR = ["pkg/broker/memory/memory.go", "pkg/broker/memory/subscriber.go"]
prop("B01", "Messages on a topic arrive once, intact and in publish order",
 "Within a broker session, over any sequence of publishing, subscribing, receiving and unsubscribing on any topics, each receive hands its handler, under the receive's context, exactly the oldest message of its subscription's topic that no receive has taken yet, unaltered, whether it was published before or after subscribing; a handler's error is returned, whatever it is, and its message counts as taken. A receive that times out takes at most one message with it, one that waited at that instant. A topic holds as many messages as the broker's capacity, topics do not affect one another, and several subscribers of one topic share its messages, each message going to one of them.",
 ["histories", "inputs", "configurations"], "every sequence of broker operations over several topics and subscribers, any message content and any capacity",
 "The tests publish at most two messages on one topic and receive one.",
 BR, [("one buffered channel per topic", "pkg/broker/memory/memory.go queue")],
 observe=["handler arguments of Receive, results of Pub"])
prop("B02", "Concurrent publishing and receiving loses and repeats nothing",
 "While any number of goroutines publish and receive on any topics of an open broker, every message whose publish succeeded is handed to exactly one receive of that topic and no other message is, so long as no receive times out; one publisher's messages reach a lone receiver in the order published. No schedule makes the broker deadlock, panic or race on its memory.",
 ["schedules", "histories", "configurations"], "every interleaving of publishers, subscribers and unsubscribers, with any capacity including none",
 "One test publishes two messages concurrently and receives none of them.",
 BR, [("topic channel shared by publishers and subscribers", "pkg/broker/memory"), ("broker mutex around topic creation", "pkg/broker/memory/memory.go Pub, Sub")],
 observe=["multiset of messages handled against those accepted"])
prop("B03", "A publish that succeeds was accepted, one that was not fails",
 "Publishing returns nil exactly when the message was put on the topic: when the topic stays full past the publish timeout it fails with the timeout error, when the caller's context ends first it fails with the context's error, when the broker is or becomes closed with an error, and a failed publish is never delivered. A publish that fails, by timeout or by its context ending, affects no other user of the broker.",
 ["histories", "schedules", "fault_sequences"], "every point at which the timeout, the context or the closing of the broker can overtake a publish, with any fill level of the topic",
 "The tests cover one timeout and one publish on a never opened broker; the context and close paths are not executed.",
 BR[:1], [("select over context, close, timeout and queue", "pkg/broker/memory/memory.go publishMsg")],
 observe=["error of Pub against the messages later received; other users' operations"])
prop("B04", "Each broker session is fresh and ends only when it should",
 "A broker works exactly between a successful open and the next close or end of the context that session was opened with: outside, publishing and subscribing fail with the not-connected error, and opening an open broker or closing a closed one does nothing. A broker opened again works as a new one: nothing from an earlier session (its messages, topics, subscriptions, context or pending shutdown) affects it.",
 ["histories", "schedules"], "every sequence, also concurrent, of open, close, context end, publish, subscribe and receive over several sessions",
 "No test opens a broker again after closing it, or ends the context it was opened with.",
 BR[:1], [("session channels and shutdown goroutine", "pkg/broker/memory/memory.go Open, run, Close")],
 state=[("connected, exit, ctl, topics, subs", "the state of the current session", "pkg/broker/memory/memory.go Memory")],
 observe=["Pub, Sub, Receive results after reopening"])
prop("B05", "Ending a session or context releases everyone and leaks nothing",
 "When a broker session ends, every blocked publish and receive on it returns; when a call's context ends, that call returns with the context's error; when a subscription ends, its blocked receive returns. A receive that returns without having handled a message always reports an error, and once the session is over no goroutine of the broker is left running.",
 ["schedules", "histories", "fault_sequences"], "every set of blocked publishers and receivers and every point at which a close, a context end or an unsubscribe happens",
 "No test blocks a publish or a receive and then closes, cancels or unsubscribes.",
 BR, [("exit channels in every select", "pkg/broker/memory publishMsg, Receive, Unsubscribe, run")],
 observe=["return of blocked calls in virtual time, goroutines left in the bubble"])
prop("B06", "Subscriptions are independent and ending one is idempotent and final",
 "Each subscription has its own ID and reports the topic it was made for. A subscription lasts until it is unsubscribed or its broker closes, whatever becomes of the context it was made under. Unsubscribing, any number of times, under any context and from any number of goroutines at once, never fails or panics; afterwards receiving on it fails with the inactive error and takes no message, while all other subscriptions, of that topic or others, go on receiving as before.",
 ["histories", "schedules"], "every sequence or interleaving of subscribes, unsubscribes and receives on shared topics",
 "The tests unsubscribe one subscription twice in sequence and never receive on another one afterwards.",
 BR, [("active flag and exit channel per subscription", "pkg/broker/memory/subscriber.go")],
 observe=["Unsubscribe, Receive, ID, Topic"])
prop("B07", "Timeouts are honoured: the call's, else the broker's, else the default",
 "A publish that cannot be accepted and a receive that finds no message fail with the timeout error after exactly the timeout given to the call, else (for a publish) the one the broker was made with, else the five second default, and never earlier; a message or free slot that arrives before that is used. The option given to one call does not affect any other.",
 ["configurations", "histories"], "every combination of broker and call timeouts, and every arrival time of a message or slot before or after the deadline",
 "One test waits for one 100 ms publish timeout and does not measure it; receive timeouts are not tested.",
 BR, [("timeout defaulting", "pkg/broker/memory/memory.go New, Pub; subscriber.go Receive")],
 observe=["virtual time elapsed in Pub and Receive"])
prop("M01", "What is deleted, delivered or ended is let go",
 "A graph, store, cache or plan keeps no reference to a node, entity, link or resource that none of its queries shows any more, nor to its attributes. A broker keeps none to the payload of a message that was received, failed to be published or was lost with its session, nor to a subscription that was ended, to the context or handler of a call that has returned or, once another session has been opened, to the context of one that is over, and keeps no goroutine for any of them.",
 ["histories"], "every history of additions, replacements, deletions, deliveries and endings",
 "No test looks at what is still referenced after an operation.",
 ["graph, store, cache, plan and broker in memory"], [("node replacement and removal", "pkg/graph/memory/wg.go AddNode, RemoveNode"), ("both indexes", "pkg/cache/memory/links.go delete, put"), ("subscriptions by topic", "pkg/broker/memory/memory.go run, Sub, close")],
 observe=["weak pointers after garbage collection", "goroutines inside the broker"])
prop("D01", "A digester handles every message until it has to stop, then stops",
 "Digesting hands every message the subscriber receives to the handler in effect, under the caller's context, in order, exactly once, and returns the first error of a handler or receive; it returns, with an error, when its context ends, when the subscription ends and when the broker closes, and does not go on receiving; it leaves the subscription as it is. The handler in effect is the one given to the call, else the one the digester was made with, else one that copies each payload to standard output unchanged.",
 ["histories", "configurations", "fault_sequences", "schedules"], "every sequence of messages, failing position, and way of stopping, with every combination of options",
 "The digester has no tests.",
 ["pkg/broker/digester/simple/digester.go", "pkg/broker/handlers/handlers.go", "pkg/broker/memory/subscriber.go"],
 [("receive loop", "pkg/broker/digester/simple/digester.go handle"), ("option merging", "digester.go Digest")],
 observe=["handler calls, return value of Digest, Receive calls made by it"])
prop("I01", "An ingester publishes exactly the one message it was asked to",
 "A successful ingest publishes exactly one message, under the caller's context, on the given topic, with the given type and with the data encoded by the marshaler in effect: the one given to the call, else the one the ingester was made with, else JSON. If encoding or publishing fails, ingest returns that error and, when encoding failed, publishes nothing; the options of one call do not affect another.",
 ["inputs", "configurations", "fault_sequences"], "every data value, type, topic, combination of marshalers, and failing step",
 "The ingester has no tests.",
 ["pkg/broker/ingester/simple/ingester.go"], [("option merging and marshalling", "pkg/broker/ingester/simple/ingester.go Ingest")],
 observe=["messages reaching a recording broker, return value of Ingest"])
prop("E01", "What is ingested comes out of the pipeline and into the store unchanged",
 "Entities, objects, resources and links ingested through a broker with the JSON marshaler and digested into a store by a handler that unmarshals them by message type end up in the store exactly as they were: one entity per distinct UID with its type and attributes, and one link per linked pair with its attributes. This holds for any order of entities followed by any order of links, any number of ingesters and digesters, and any broker capacity.",
 ["inputs", "schedules", "configurations"], "every set of space values and links, order, number of concurrent ingesters and digesters, and capacity",
 "No test puts two of the parts together.",
 ["pkg/broker/ingester/simple/ingester.go", "pkg/broker/memory/memory.go", "pkg/broker/digester/simple/digester.go", "pkg/space/marshal/json/json.go", "pkg/store/memory/store.go"],
 [("the whole data path", "ingester, broker, digester, marshaler, store")],
 observe=["store contents and graph at the end"])
prop("R01", "A runner hands the scraper exactly its plan and options",
 "Running calls the scraper exactly once with the caller's context and plan and returns its error unchanged. The options the scraper sees are the runner's own store, broker and marshaler, each replaced by the one given to that run if any, and the options of one run do not affect a later one.",
 ["configurations", "histories"], "every combination of options on the runner and on each of a sequence of runs, and every scraper outcome",
 "The runner has no tests.",
 ["runner.go", "options.go"], [("option merging", "runner.go Run")], observe=["arguments of Scraper.Scrape, return value of Run"])

prop("O01", "Options set exactly what they name, and the last one given wins",
 "Applying an option value of any package (runner, graph, store, in-memory store, broker, cache, ingester, digester, entity, link) sets exactly the setting it names to exactly the value given, zero values and nil included, and leaves every other setting as it was. Options may be applied in any order, the last one of a setting wins, and one option value may be applied any number of times, to any sets of options and from several goroutines at once, each time with the same effect and without affecting any other set.",
 ["configurations", "histories", "inputs"], "every sequence of options of one package, with any values, applied to any number of option sets",
 "The tests use a few options once each, with one value, and never apply one twice.",
 ["options.go", "pkg/graph/options.go", "pkg/store/options.go", "pkg/store/memory/options.go", "pkg/broker/options.go", "pkg/cache/options.go", "pkg/broker/ingester/options.go", "pkg/broker/digester/options.go", SP+"entity/options.go", SP+"link/options.go"],
 [("functional options", "With... functions of every options.go")], observe=["exported fields of each package's Options"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
