#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DYN = "metriken-core/src/dynmetrics.rs"; MET = "metriken-core/src/metrics.rs"; LIB = "metriken-core/src/lib.rs"
PROV = "metriken-core/src/provide.rs"; WRAP = "metriken-core/src/wrapper.rs"; META = "metriken-core/src/metadata.rs"
FMT = "metriken-core/src/formatter.rs"; DER = "metriken-derive/src/metric.rs"; ARGS = "metriken-derive/src/args.rs"
CTR = "metriken/src/counter.rs"; GAU = "metriken/src/gauge.rs"; HIS = "metriken/src/histogram.rs"; LAZ = "metriken/src/lazy.rs"
SNP = "metriken-exposition/src/snapshot.rs"; SNR = "metriken-exposition/src/snapshotter.rs"
PAR = "metriken-exposition/src/parquet.rs"; CNV = "metriken-exposition/src/convert.rs"

prop("C01", "A dropped dynamic metric can no longer be reached from the registry",
 "Dropping a dynamic metric removes its registration, unconditionally and before its storage is released, so no listing taken afterwards yields it and no listing can observe freed storage. Safe code can neither move a registered metric out from under its registration nor keep an entry or metric reference beyond the listing that produced it.",
 ["schedules", "programs"], "every interleaving of register, list and drop on any threads; every safe program using the dynamic-metric API; drops during unwinding",
 "The tests drop a handful of metrics on one thread with nobody listing; use-after-free needs a concurrent reader, a moved metric or a retained reference, and no test can show that no safe program exists.",
 [DYN, MET, LIB], [("Drop for DynPinnedMetric unregisters", DYN), ("Pin receiver on register plus a non-Unpin owner", DYN), ("entries are not cloneable and borrow from the guard", LIB)],
 [("REGISTRY", "global map from metric address to entry, behind a reader-writer lock", DYN)], ["metrics()", "dynamic_metrics()"])

prop("C02", "A registered dynamic metric is listed exactly once until it is dropped",
 "From the return of registration until it is dropped, each dynamic metric is listed exactly once, under the name and description it was most recently registered with, and that entry reports that very metric. Registering, re-registering or dropping one metric never adds, removes or alters the entry of another, even one with the same name, type or value.",
 ["histories", "schedules"], "every history of registrations, re-registrations and drops of any number of dynamic metrics",
 "The tests reach at most two distinct-name metrics alive at once and only compare the number of entries, so wrong-entry removal, key collisions and stale names are invisible to them.",
 [DYN], [("registry keyed by the metric's address for both insert and remove", DYN), ("unconditional replace on insert", DYN)],
 [("DynMetricsRegistry.metrics", "address -> entry", DYN)], ["dynamic_metrics()"])

prop("C03", "Every way of walking the metric listing agrees on the same sequence",
 "A listing yields every statically declared metric and every registered dynamic metric exactly once, and all its iteration operations (stepping, skipping, counting, folding, length hints, and their reverse forms, in any mixture) describe that one sequence. Skipping past the static metrics continues at the right dynamic metric, and length hints are never wrong.",
 ["inputs", "histories"], "every mix of static and dynamic metrics (including none of either) and every sequence of forward and backward iteration calls",
 "Tests only step forward or look at one of the two halves on its own, never skip, reverse or ask for hints with both kinds present.",
 [MET], [("static half then dynamic half, each delegated to the std iterator", MET)], None, ["metrics().iter()", "static_metrics()", "dynamic_metrics()"])

prop("C04", "The registry lock is never self-deadlocked, leaked or held over user code",
 "No library operation takes the registry lock while it holds the registry's or a histogram's lock, or a histogram's lock while it holds a histogram's lock, and no user-supplied code runs while the registry is locked for writing; every acquired lock is released on every way out, including unwinding. A listing keeps the registry locked for reading for its whole lifetime, so what it yields cannot change underneath it, and the library's own snapshotting needs just one listing.",
 ["schedules", "programs"], "every interleaving of listing, snapshotting, registering, dropping and histogram updates from any threads, with arbitrary user metrics, filters and formatters",
 "A lock-order or upgrade deadlock needs a particular interleaving with a queued writer; the single-threaded tests never contend for the lock.",
 [DYN, MET, HIS, SNR], [("scoped guards of parking_lot RwLock", DYN), ("Metrics owns the read guard", MET)],
 [("REGISTRY", "registry lock", DYN), ("RwLockHistogram.inner", "histogram lock", HIS)])

prop("C05", "Typed requests are type-safe and the first provided answer wins",
 "Requesting a value or reference of a type from a metric yields something only if the metric provided exactly that type in exactly that form, and then yields the first one it provided; every other request yields nothing. No sequence of provide calls can make a request reinterpret data as another type, and the would-be-satisfied queries answer true exactly when a provide of that kind would be accepted.",
 ["inputs", "programs"], "every requested type, every sequence of provide calls by any metric implementation",
 "One test requests one type that is present; a wrong or missing tag comparison only shows for other type pairs and is undefined behaviour rather than a failed assertion.",
 [PROV, LIB], [("tag id equality guards each downcast", PROV), ("write only when empty", PROV), ("provider map keyed by the reference tag of the stored type", PROV)])

prop("C06", "Wrapping a metric never changes what it reports",
 "A metric reached through a registry entry, whether declared statically, built dynamically, or lazily initialised and since initialised, reports the same enabled state, value, concrete object and provided context as the metric itself. Context declared with the metric (metadata, formatter, provided data) takes precedence over what the metric itself provides, and the entry's and owner's accessors hand out that very metric.",
 ["programs", "inputs"], "every metric implementation, every combination of wrapper layers",
 "Tests only wrap plain counters and read metadata back; none uses a metric with its own provided context, enabled rule or concrete object through each wrapper.",
 [WRAP, DYN, LAZ, LIB], [("forwarding Metric impls of the wrappers", WRAP), ("forwarding Metric impl of dynamic metrics", DYN), ("forwarding Metric impl of Lazy", LAZ)])

prop("C07", "Builder-declared identity reaches the registered entry unchanged",
 "For a metric made with the builder, the entry reports exactly the given name, the given description (or none), every given metadata pair (the last value for a repeated key) and no other, every piece of provided data, and formats with the given formatter if one was set. Building a metric directly registers it exactly once; building it pinned or as a bare entry registers nothing.",
 ["inputs"], "every sequence of builder calls with arbitrary strings, data and formatters",
 "Tests read back one name and two metadata keys; descriptions, formatters, provided data and repeated keys of dynamic metrics are never read back.",
 [DYN, LIB], [("MetricBuilder fields moved into entry and provider map", DYN), ("formatter lookup in MetricEntry::formatted", LIB)])

prop("C08", "The metric attribute registers each static once with what was declared",
 "Every static annotated with the metric attribute contributes exactly one listing entry for that very static, carrying the declared name (or the identifier of the static when omitted), the declared description (or none), exactly the declared metadata pairs and the declared formatter (or the default one), and leaves the initial value of the static unchanged. Repeated arguments, repeated metadata keys and unknown arguments are rejected at compile time.",
 ["programs"], "every combination of attribute arguments in any order on statics of any metric type",
 "The tests expand a few argument combinations and two rejected programs; omitted or reordered combinations and other duplicated or unknown arguments are not expanded at all.",
 [DER, ARGS, LIB], [("argument parser", DER), ("insert_or_duplicate", ARGS), ("declare_metric_v1 expansion", LIB)])

prop("C09", "Static and dynamic metadata answer every query identically",
 "Whether a metric's metadata was declared statically or built at run time, size, emptiness, membership, lookup and iteration all answer from the same key-value pairs and agree with each other: a key is a member exactly when lookup finds its value, and iteration in any style yields each pair exactly once, as (key, value), with exact length hints.",
 ["inputs"], "every key-value set in either representation, every query and iteration style",
 "Tests look up two present keys of a dynamic map; absent keys, emptiness, iteration, skipping and the static representation are not queried.",
 [META], [("per-representation delegation to the underlying map", META)])

prop("C10", "Default formatting shows the name and every label, unambiguously",
 "The simple format of a metric without its own formatter is exactly its name. Its Prometheus format is the name alone when it has no metadata and otherwise the name followed by one key=\"value\" label for every metadata pair, with quote, backslash and newline in label values escaped so that the labels can be recovered.",
 ["inputs"], "every name and metadata content",
 "Tests format metrics with zero or one label holding a plain letter.",
 [FMT, LIB], [("default_formatter", FMT), ("MetricEntry::formatted falls back to it", LIB)])

prop("C11", "Counter and gauge updates are never lost, torn or misreported",
 "Every increment, decrement, add, subtract, set and reset of a counter or gauge takes effect as one indivisible update by exactly the requested amount, wrapping around on overflow instead of panicking, and returns the value the update replaced; reads return the current value and change nothing. Under any concurrency the final value accounts for every update, and what the metric reports to a listing is that value under the right kind.",
 ["schedules", "inputs"], "every interleaving of updates and reads from any number of threads; every operand including overflow",
 "No test updates a counter or gauge from two threads or near overflow; a lost update needs an interleaving between a read and a write.",
 [CTR, GAU], [("one atomic read-modify-write per update", CTR)], [("Counter.0", "atomic value", CTR), ("Gauge.0", "atomic value", GAU)])

prop("C12", "Lazy metrics initialise once, on use only, and stay silent before that",
 "A lazy metric runs its initialiser at most once, on the first use through its owner, whichever threads race; everybody sees the one resulting value. Until then it is disabled and reports no value and no concrete object, and neither listing, reading, formatting nor snapshotting it ever triggers initialisation.",
 ["schedules", "histories"], "every interleaving of first uses and observations from any threads",
 "Only a doc example that is compiled out mentions lazy metrics; nothing observes one before first use or races two first uses.",
 [LAZ], [("OnceCell::get_or_init in force only", LAZ), ("Metric impl uses get", LAZ)], [("Lazy.cell", "value once initialised", LAZ), ("Lazy.func", "initialiser, taken once", LAZ)])

prop("C13", "Histogram updates are whole, checked, and never invent or drop data",
 "A histogram metric keeps the configuration it was declared with, rejects invalid configurations, reports no data before the first attempt to record into it, and reading it never initialises or changes it. Recording a value or a bulk update either takes full effect on that histogram or returns an error and leaves its counts unchanged; a bulk update of the wrong length is rejected without effect, and readers never see a partly applied bulk update.",
 ["schedules", "inputs"], "every configuration, value, bulk length and interleaving of recording, updating and loading",
 "No test records into, bulk-updates or loads a histogram metric at all.",
 [HIS], [("OnceLock initialisation from the stored config", HIS), ("length check before the write guard", HIS), ("copy under the write guard", HIS)])

prop("C14", "A snapshot holds every enabled, filtered-in metric exactly once and intact",
 "A snapshot contains one reading for every listed counter, gauge and recorded histogram that the filter accepts, and nothing else; each carries its simple-format name, the value the metric reported, all its metadata plus its description (and, for histograms, their configuration). It carries the snapshotter's own metadata and a time taken no later than the readings.",
 ["inputs", "programs"], "every set of registered metrics, filter, formatter and metadata",
 "No test takes a snapshot: the exposition tests build snapshots by hand.",
 [SNR], [("one pass over the listing with a match on the reported value", SNR)])

prop("C15", "Snapshot accessors and decoding keep the two versions faithful",
 "For either snapshot version each accessor returns that snapshot's own field (the container accessors hand it over exactly once), and a duration is reported exactly for the version that has one. Decoding serialised data never reinterprets one version as the other, whichever encoding is used, and every public field takes part in serialisation.",
 ["inputs"], "every snapshot of either version and every self-describing or positional encoding",
 "Tests build both versions in memory and never decode one; accessors are exercised only through two parquet runs.",
 [SNP], [("match over both versions", SNP), ("untagged decoding order of the versions", SNP)])

prop("C16", "Canonical metric names are deterministic and use every naming key",
 "The column name given to a metric is its snapshot name when it has no \"metric\" metadata key, and otherwise the value of that key followed by the values of name, op, state and direction, then of all other keys except unit and histogram configuration in key order, then of id, separated by slashes. It depends only on the metric's name and metadata, never on map iteration order, and is the same in every snapshot and pass.",
 ["inputs"], "every metadata content and every hash-map iteration order",
 "No test has metadata with a \"metric\" key; iteration order is random per process and so cannot be pinned by a test run.",
 [SNP], [("canonicalize_metric_name", SNP)])

prop("C17", "Parquet columns written always match the parquet schema declared",
 "For every set of snapshots and either histogram representation, the columns written for a row are, in number, order, element type and metric identity, exactly those of the schema: timestamp, duration, then one column per counter, gauge and histogram (two per sparse histogram). The schema covers every metric seen in any pushed snapshot under its canonical name, every metric column accepts nulls, and each column is labelled with its metric's metadata and kind.",
 ["inputs"], "every set of snapshots, option values and histogram representation",
 "Tests use one counter, one gauge and one histogram present in every snapshot, so ordering, gaps and cross-kind mix-ups cannot show.",
 [PAR, SNP], [("parallel construction of fields and name lists in finalize", PAR), ("columns built from the same lists in push", PAR)])

prop("C18", "Each snapshot becomes one parquet row holding its own values or nulls",
 "Pushing a snapshot writes exactly one row: its timestamp and duration in nanoseconds (null duration for a version without one), and for each schema column the value that snapshot reported for that metric, or null when it did not report it. Histogram columns hold the complete bucket counts, or for the sparse form the bucket indices and their counts.",
 ["inputs", "histories"], "every sequence of pushed snapshots against any schema",
 "Tests never push a snapshot that lacks a schema metric, so gap filling and cross-row leakage are not exercised.",
 [PAR, SNP], [("remove-by-name lookup per schema entry", PAR), ("HashedSnapshot conversion", SNP)])

prop("C19", "Conversion reads everything twice, reports all errors and never panics",
 "Converting a recording scans every snapshot into the schema before writing, then writes every one of the same snapshots, finishes the file with the given options and reports its row count; file-level metadata is the recording's with the caller's added, the caller's value winning for a key both have. Any read, decode, or write failure at any point is returned as an error: conversion and the parquet writer neither panic on it nor report success.",
 ["fault_sequences", "inputs"], "every input stream, malformed or truncated at any point, and every I/O failure point of reader and writer",
 "No test runs the converter, and no test injects a read, decode or write failure.",
 [CNV, PAR], [("two loops until end of input", CNV), ("errors converted and propagated", CNV), ("finalize closes the writer", PAR)])

prop("C20", "Safe callers can never cause undefined behaviour or a cross-thread race",
 "All unchecked operations are confined to the audited spots whose preconditions hold for every caller: layout-transparent reinterpretation, tag-checked downcasts, pointers to registered metrics, and thread-safety claims justified by their bounds. Non-thread-safe metrics, initialisers or provided data cannot be placed where other threads can reach them.",
 ["programs", "schedules"], "every safe program using the public API from any number of threads",
 "Unsoundness is about programs nobody wrote yet; a test run shows at most one execution of one of them.",
 [LIB, PROV, WRAP, DYN, LAZ], [("repr(transparent) wrappers", WRAP), ("Send + Sync supertraits", LIB), ("bounds on unsafe Send/Sync impls", LAZ)])

prop("C24", "A listing entry recognises exactly the metric it stands for",
 "Asked whether a given metric is the one it stands for, an entry says yes for the metric it was declared or registered for, whether static, dynamically built, pinned or boxed, of whatever type and whether enabled or initialised or not, and no for every metric that lives elsewhere or that shares its address but reports another concrete type.",
 ["inputs", "programs"], "every metric type and layout, every entry, static or dynamic",
 "Tests ask only static entries about their own static; no dynamic metric and no metric stored inside another is ever asked about.",
 [LIB, DYN, WRAP], [("MetricEntry::is", LIB), ("layout of the dynamic wrapper", DYN), ("layout of the static wrapper", WRAP)])

prop("C21", "Distinct metrics never share a canonical column name",
 "Two metrics of one kind that differ in name or metadata are never folded into one column, so no reading of a snapshot is lost when it is written.",
 ["inputs"], "every pair of metric names and metadata sets",
 "No test has two metrics of one kind; uniqueness quantifies over all string contents.",
 [SNP, PAR], [("canonicalize_metric_name", SNP)])

prop("C22", "Serialised snapshots and parquet files read back equal to what was written",
 "Decoding the encoding of any snapshot, or reading back any written parquet file, yields exactly the readings that were written.",
 ["inputs"], "every snapshot content and every encoding and compression setting",
 "Only two fixed snapshots are read back, through one compression setting.",
 [SNP, PAR, CNV], [("serde, rmp-serde, arrow and parquet codecs (dependencies)", PAR)])

prop("C23", "Histogram buckets bound every recorded value within the configured error",
 "For every configuration and recorded value, the reported bucket contains the value and its width respects the configured grouping power.",
 ["inputs"], "every configuration and every 64-bit value",
 "No test records a value.",
 [HIS], [("bucket arithmetic in the histogram dependency", HIS)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
