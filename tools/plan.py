"""What each check runs; MANIFEST.json is written from it (tools/mkmanifest.py)."""

PLAN = {}

# What the numbers of cases in the harness are multiplied by (both tiers): a
# quick check takes half a minute on eight cores or less.
SCALE = dict(C01=6, C02=12, C03=20, C04=20, C05=12, C06=20, C07=3, G01=6, G02=6, G03=10, G04=4, G05=12, G06=2, S01=4, S02=12, S03=4, S04=10,
             K01=4, K02=4, K03=6, L01=4, L02=6, B01=5, B02=5, B03=5, B04=2, B05=2, B06=3, B07=5, M01=8, D01=3, I01=2, E01=2, R01=4)


def P(pid, technique, note, race=False, shards=None, level="exploration", assumptions=()):
    PLAN[pid] = dict(technique=technique, note=note, race=race, level=level, scale=SCALE.get(pid, 1),
                     shards=shards or {"quick": 8, "thorough": 8}, assumptions=list(assumptions))


UTF8 = "strings are valid UTF-8 (JSON cannot carry others)"

P("C01", "property-based testing: round trip over generated values (rapid)",
  "Every generated value came back equal; says nothing about values outside the generator (strings that are not UTF-8).",
  assumptions=[UTF8])
P("C02", "structured fuzzing with a differential oracle (encoding/json into the harness's own wire structs)",
  "Accepts, rejects and decodes as the reference on every generated document; trusts encoding/json.")
P("C03", "property-based testing: generated values, documents read by an independent token-level reader",
  "Every generated value's bytes held exactly the documented keys and data; trusts encoding/json's tokenizer.",
  assumptions=[UTF8])
P("C04", "fault injection: every fault point of generated attribute sources, with every operation reading them",
  "All fault points of each generated source are tried; sources are bounded to 12 attributes.", level="fault_enumeration")
P("C05", "property-based testing: generated constructor arguments and option subsets against their own values",
  "Every generated construction reported what it was given, also after other values were built and changed.")
P("C06", "model-based testing: generated histories on several attribute sets against maps (rapid)",
  "Every generated history agreed with the model after each operation.")
P("C07", "property-based testing of shared use: concurrent and stopped-amid uses of generated values with one codec, race detector",
  "Every generated use gave what it gives alone and no race was seen; up to four goroutines and eight uses each.", race=True)
P("G01", "model-based testing: generated operation histories against a plain graph, every query compared after each operation (rapid)",
  "Every generated history agreed with the model; histories are bounded (40 operations, graphs up to some hundred nodes).")
P("G02", "model-based testing: generated histories with duplicate adds and upserts, every view compared (rapid)",
  "Every generated history agreed with the model in every view; histories are bounded.")
P("G03", "model-based testing: generated histories in which node creation and adding are apart and numeric IDs collide (rapid)",
  "Every generated history agreed with the model; histories are bounded.")
P("G04", "property-based testing: generated graphs, subgraphs against a breadth-first reference and histories on both afterwards",
  "Every generated subgraph was the induced subgraph and stayed independent; graphs are bounded to some hundred nodes.")
P("G05", "property-based testing: generated graphs, the DOT text read back by an independent parser",
  "Every generated export read back as the graph; IDs gonum takes for already quoted or HTML are left out.",
  assumptions=["DOT IDs that begin and end with a quote or angle brackets are passed to gonum as they are and are not generated where they would not be valid DOT"])
P("G06", "stateful concurrency testing: generated schedules and free runs, linearizability checked by exhaustive search, race detector",
  "Every generated schedule was linearizable and free of deadlocks and races; two to four goroutines, up to twelve operations.", race=True)
P("S01", "model-based testing: generated histories against maps, every entity and the whole graph compared after each operation",
  "Every generated history agreed with the model; histories are bounded.")
P("S02", "differential property-based testing: a bulk operation against the same single operations on a twin store",
  "Bulk and singles agreed on every generated state and batch.")
P("S03", "stateful concurrency testing: generated schedules and free runs, linearizability checked by exhaustive search, race detector",
  "Every generated schedule was linearizable and free of deadlocks and races; two to four goroutines, up to twelve operations.", race=True)
P("S04", "fault injection: every call a generated operation makes to the graph behind the store is made to fail",
  "Each fault was reported; all calls of each generated operation are tried.", level="fault_enumeration")
P("K01", "model-based testing: generated histories against a map of pairs, every read compared after each operation",
  "Every generated history agreed with the model; histories are bounded.")
P("K02", "model-based testing: generated histories with deletions, earlier results compared again after each later operation",
  "Every generated history agreed with the model; histories are bounded.")
P("K03", "stateful concurrency testing: generated schedules and free runs, linearizability checked by exhaustive search, race detector",
  "Every generated schedule was linearizable and free of deadlocks and races; two to four goroutines, up to twelve operations.", race=True)
P("L01", "model-based testing: generated histories against a map, every read compared after each operation",
  "Every generated history agreed with the model; histories are bounded.")
P("L02", "stateful concurrency testing: generated schedules and free runs, linearizability checked by exhaustive search, race detector",
  "Every generated schedule was linearizable and free of deadlocks and races; two to four goroutines, up to twelve operations.", race=True)
P("B01", "model-based testing in virtual time: generated histories against a discrete-event model of topic queues",
  "Every generated history agreed with the model at every instant; histories are bounded (some forty events, four topics).")
P("B02", "stateful concurrency testing: concurrent publishers and receivers, conservation and order of messages, race detector",
  "No generated flow lost, repeated or reordered a message; up to four topics and some hundred messages; schedules are the runtime's own.", race=True)
P("B03", "model-based testing in virtual time: publishes into full, closed and reopened brokers against a discrete-event model",
  "Every generated history agreed with the model; histories are bounded.")
P("B04", "model-based testing in virtual time, and generated schedules of concurrent opening and closing checked for linearizability",
  "Every generated history and schedule agreed with the model; bounded histories and up to twelve concurrent operations.", race=True)
P("B05", "stateful concurrency testing in virtual time: sessions and contexts ended under load, blocked calls and left goroutines observed, race detector",
  "Nobody stayed blocked and no goroutine was left in any generated storm; leaks are looked for inside the bubble.", race=True)
P("B06", "model-based testing in virtual time, and storms of concurrent unsubscribing and receiving, race detector",
  "Every generated history agreed with the model; histories are bounded.", race=True)
P("B07", "model-based testing in virtual time: every timeout compared to the nanosecond with a discrete-event model",
  "Every generated timeout was the documented one; histories are bounded.")
P("M01", "model-based testing: weak pointers to everything handed in, after generated histories and garbage collections",
  "After every generated history nothing unreachable by queries was still held; trusts the garbage collector's precision.",
  assumptions=["the garbage collector frees what is unreachable within five collections"])
P("D01", "model-based testing: scripted subscribers with injected errors, and a real broker in virtual time",
  "Every generated history of digest calls behaved as its script demands; up to four digesters and twelve messages.", race=True,
  assumptions=["handlers given as options are not nil"])
P("I01", "property-based testing with a recording broker and marshalers that fail on demand",
  "Every generated ingest published what it was asked to; the JSON default is compared as data, not as bytes.", race=True,
  assumptions=["marshalers given as options are not nil"])
P("E01", "stateful concurrency testing in virtual time: generated values through the whole pipeline against a plain graph, race detector",
  "Every generated set of values arrived as it was; up to fourteen entities and links, four ingesters and digesters.", race=True, assumptions=[UTF8])
P("R01", "property-based testing with a recording scraper: identity of everything handed on, over generated histories of runs",
  "Every generated run handed on exactly its plan and options.", race=True,
  assumptions=["options given are not nil"])
P("O01", "model-based testing: generated options applied to several option sets, all settings compared with a model after each",
  "Every generated sequence of options had exactly the effect of its model.", race=True)
