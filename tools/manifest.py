#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Trusts TLC, the harness that records plain calls and answers, and that key types and histories beyond the "
         "generated ones behave like those generated.")
N = {
 "C01": ("TLA+ FixedMap checked by TLC; covering walks over its transition graph replayed on ~105 key types and validated as behaviours (TraceMap)",
         "Laws over all histories up to length 4 (2 keys); every transition of the 1-3 key machine executed on every key type on extreme and random key choices, plus random histories, each answer checked against the spec. StorageTree refines the machine: every operation on every content of all small storage trees."),
 "C02": ("TLA+ FixedSet checked by TLC; covering walks replayed on ~105 key types and validated (TraceSet)",
         "Every transition of the 1-3 key set machine on every key type, plus random histories, each answer checked against the spec. StorageTree refines the machine: the same for storage trees as sets."),
 "C03": ("TLA+ view relations of FixedMap (ViewModel laws); recorded views of real maps validated (TraceMap)",
         "All small subsets of keys and random larger contents of every key type, every view recorded and checked against the lookups. StorageTree refines the machine: storage trees' length, emptiness and iteration."),
 "C04": ("TLA+ view relations of FixedSet; recorded views of real sets validated (TraceSet)",
         "All small subsets and random larger contents of every key type, every view checked against membership."),
 "C05": ("TLA+ KeySpace/KeyOrder (recursive key order, laws over all key-type terms of bounded depth); recorded iteration validated",
         "Order laws over all key-type terms of depth 2; order of every iterator, forwards and backwards, on catalogue and random nested key types. StorageTree refines the machine: iteration order of storage trees."),
 "C06": ("TLA+ Cursor/IterModel (double-ended iteration) checked by TLC; its call sequences replayed on real iterators and validated",
         "All call sequences of the model up to a bounded length plus random mixes with clones, skips and folds on every iterator of every key type. StorageTree refines the machine: tree iterators are cursors from both ends."),
 "C07": ("TLA+ EntryModel enumerates all entry chains; replayed on real entries and validated (TraceMap)",
         "Every chain of at most 4 entry calls from every prior state, on every key type. StorageTree refines the machine: entries of storage trees reach the cell of their key."),
 "C08": ("TLA+ Ownership (values as identities, conservation laws) checked by TLC; transitions replayed with drop-observing values, accounting validated per event",
         "Every labelled ownership transition, and random histories with panics and abandoned iterators; every value must be accounted for at every event. One listed finding (hashbrown clone leak)."),
 "C09": ("TLA+ CompareLaws checked by TLC; recorded ==, !=, hash, clone answers over pairs of contents validated",
         "All pairs of small contents and near-equal larger ones on every key type, clones evolved independently. StorageTree refines the machine: equality of storage trees is equality of contents."),
 "C10": ("TLA+ ContainerOrder/OrderLaws checked by TLC over all triples; recorded comparison answers validated (TraceOrder)",
         "Order laws over all triples of small containers including incomparable values; emitted triples and random contents compared on all orderable key types."),
 "C11": ("TLA+ BitsetStorage (bit machine) refines FixedSet by TLC; lockstep traces of real bitset sets with raw integers validated",
         "Refinement over all raw integers of a 5-bit machine with 3 variants; real sets at all width boundaries, every variant bit, junk bits."),
 "C12": ("TLA+ InterModel checked by TLC; recorded intersections validated (TraceSet)",
         "All pairs of subsets of small key types, random pairs of larger ones, all ways of consuming."),
 "C13": ("TLA+ SerdeModel enumerates all short inputs; replayed through a recording serializer/deserializer and validated",
         "Every input of at most 3 elements (well-formed or not) and random long ones, arbitrary announced lengths, wrong shapes, round trips incl. JSON."),
 "C14": ("TLA+ PanicModel (all states allowed after a panicking callback) checked by TLC; injected panics at every position replayed and validated",
         "Every panic position of predicates for small contents, entry callbacks, sources and folds, on every key type."),
 "C15": ("TLA+ BuildModel (building = inserting) checked by TLC; its sequences replayed and validated",
         "Every sequence of at most 3 (thorough 4) elements and random long ones, misreporting size hints, on every key type."),
 "C16": ("TLA+ Derive enumerates declarations with verdicts; every one compiled against the derive, accepted ones validated as key types",
         "Every declaration of at most 2 (thorough 3) variants over 13 shapes, attribute forms, item kinds and widths, plus random longer ones. Listed findings: enum names the generated code uses itself."),
 "C17": ("TLA+ WriteModel enumerates mutable-iteration plans; replayed on real maps and validated (TraceMap)",
         "All plans of up to 3 takes and 2 writes from both ends, plus random larger ones, on every key type."),
 "C18": ("TLA+ RetainModel (all candidate predicate-call records) checked by TLC; recorded retains validated",
         "All predicates on small contents and random ones on large contents of every key type, with value changes. StorageTree refines the machine: filtering storage trees."),
 "C20": ("TLA+ Capability (what storage offers follows from its parts; which programs may borrow) checked by TLC; probes and programs decided by rustc, validated (TraceCap)",
         "Every key type of depth 1 and kind of value in the model; 20 capabilities of ~8000 real containers and iterators, all pairs of operations, escapes and accesses as programs, all feature combinations."),
 "C19": ("TLA+ Footprint relation (FootLaws over 0..128 variants); recorded sizes and heap operation counts validated (TraceFoot)",
         "Every operation on every non-dynamic key type under a counting allocator, sizes at all width boundaries."),
}
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
     "notes": "python3 check.py <id>; VERIF_TIER and VERIF_SEED as given. No hooks in /repo: everything observed is public API."}
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
for i in ids:
    t, n = N[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                        "technique": t, "level": "model_checking", "level_note": n + TRUST})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
