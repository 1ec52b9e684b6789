import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Counter is an atomic wrapping 64-bit register",
"Every concurrent history of increment, add, set, reset and value calls on one counter is linearizable to a single unsigned 64-bit register whose additions wrap modulo 2^64: no update is lost or applied twice. Every updating call returns the value the register held immediately before it. A counter starts at 0 or at the initial value given, and what is reported for it through its registry entry is that same register.",
["schedules","inputs","histories"],"All operation mixes, all 64-bit operands including those that overflow, all thread interleavings.",
"Existing tests never update a counter from two threads, never read the returned previous value and never overflow.",
["metriken/src/counter.rs"],[("single atomic read-modify-write per operation","metriken/src/counter.rs: Counter::add, Counter::set"),("Metric::value reads the same cell","metriken/src/counter.rs: impl Metric for Counter")],
[("Counter.0","the register","metriken/src/counter.rs")],["Counter::{increment,add,set,reset,value}","Metric::value"])

p("C02","Gauge is an atomic wrapping signed 64-bit register",
"Every concurrent history of increment, decrement, add, sub, set, reset and value calls on one gauge is linearizable to a single signed 64-bit register whose additions and subtractions wrap around in both directions: no update is lost, applied twice or clamped. Every updating call returns the value the register held immediately before it. A gauge starts at 0 or at the initial value given, and what is reported for it through its registry entry is that same register.",
["schedules","inputs","histories"],"All operation mixes, all signed 64-bit operands including i64::MIN and those that overflow or underflow, all thread interleavings.",
"Existing tests never update a gauge from two threads, never decrement below the minimum and never look at the returned previous value.",
["metriken/src/gauge.rs"],[("single atomic read-modify-write per operation","metriken/src/gauge.rs: Gauge::add, Gauge::sub, Gauge::set")],
[("Gauge.0","the register","metriken/src/gauge.rs")],["Gauge::{increment,decrement,add,sub,set,reset,value}","Metric::value"])

p("C03","Atomic histogram counts every recorded value exactly once",
"For every valid configuration, each in-range value recorded into an atomic histogram, from any number of threads and including the very first recordings racing each other, adds exactly one to the bucket whose range contains it and changes nothing else. A value above the configured maximum is rejected with an error, without panicking and without any observable change. Loading returns nothing until a value was recorded, and afterwards bucket counts that never go backwards, include every recording that completed before the load and no recording that was not yet begun when it ended.",
["schedules","inputs","configurations"],"All valid (grouping power, maximum value power) pairs, all values including bucket edges and the configured limit, all interleavings of recorders and readers including lazy initialisation races.",
"No existing test records into an atomic histogram at all.",
["metriken/src/histogram.rs"],[("once-only lazy allocation of the bucket array","metriken/src/histogram.rs: AtomicHistogram::get_or_init"),("range check against the configuration","metriken/src/histogram.rs: AtomicHistogram::increment")],
[("AtomicHistogram.inner","bucket array, allocated at the first recording","metriken/src/histogram.rs")],["AtomicHistogram::{increment,load,config}"])

p("C04","Bulk-updated histogram always shows one whole update",
"A load of a bulk-updated histogram returns exactly the buckets of one single accepted update, never a mixture of two, and that update is the latest in a linearizable order of the concurrent updates and loads. An update whose length does not match the configuration is rejected with an error and changes nothing. Before the first accepted update a load reports nothing or, while that first update is in flight, an all-zero histogram; the configuration reported is always the one the histogram was created with.",
["schedules","inputs","configurations"],"All valid configurations from the smallest to very large bucket counts, all bucket contents and data lengths, all interleavings of writers and readers including the first update racing.",
"No existing test uses the bulk-updated histogram.",
["metriken/src/histogram.rs"],[("whole-array copy under the write lock","metriken/src/histogram.rs: RwLockHistogram::update_from"),("clone under the read lock","metriken/src/histogram.rs: RwLockHistogram::load")],
[("RwLockHistogram.inner","the histogram behind its lock","metriken/src/histogram.rs")],["RwLockHistogram::{update_from,load,config}"])

p("C05","Lazy metrics initialise once, and never by being observed",
"The initialiser of a lazy metric runs at most once however many threads race on the first access, and every accessor sees that one fully built value. Observing a lazy metric (its enabled state, value, concrete type, a listing or a non-forcing get) never runs the initialiser: until something accessed the value it reports itself disabled and without a value, from then on it is enabled, exposes that value itself and reports the value which that reports. If the initialiser panics no value ever becomes visible and later accesses panic instead of running it again.",
["schedules","histories","fault_sequences"],"All interleavings of forcing accesses and observers, all access kinds, initialisers that succeed or panic, any metric type inside.",
"No existing test runs a lazy metric; the only example is compiled out.",
["metriken/src/lazy.rs"],[("one-time cell","metriken/src/lazy.rs: Lazy::force"),("non-forcing read","metriken/src/lazy.rs: Lazy::get and impl Metric for Lazy"),("hand-written thread-safety claim","metriken/src/lazy.rs: unsafe impl Sync")],
[("Lazy.cell / Lazy.func","value and pending initialiser","metriken/src/lazy.rs")],["Lazy::{new,get,get_mut,force}","Deref/DerefMut of Lazy","Metric for Lazy"])

p("C06","The dynamic listing is exactly the set of live registered metrics",
"A dynamic metric is listed as soon as the call that registers it returns and is gone from every listing opened after its owner finished dropping it; each live registered metric is listed exactly once and no other metric's registration or removal affects it. Its listed name and description are those of its latest registration and its value is that of its own instance. This holds for boxed and pinned metrics alike, whatever names they share, however often they are re-registered, moved between owners or threads, and however many threads do so at once.",
["histories","schedules","inputs"],"All sequences and interleavings of build, register, re-register, move and drop over any number of metrics of any type, with equal or different names.",
"Existing tests register at most two metrics, sequentially on one thread under a mutex, and check little more than the number of entries.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/metrics.rs"],[("address-keyed registry behind a lock","metriken-core/src/dynmetrics.rs: DynMetricsRegistry"),("unregister on drop","metriken-core/src/dynmetrics.rs: impl Drop for DynPinnedMetric")],
[("REGISTRY","map from metric address to its entry","metriken-core/src/dynmetrics.rs")],["metrics()","Metrics::{dynamic_metrics,iter}"])

p("C07","A listing never reaches a dead, moved or racing metric",
"While a listing is open every entry in it refers to a fully alive metric: no metric reachable from it is destroyed, freed or moved until the listing is closed, even when its owner drops it concurrently, and a metric's destructor never finds the metric still listed. Safe code cannot make an entry dangle by moving a registered metric. No use of the library from any number of threads causes a data race, use of freed memory or other undefined behaviour.",
["schedules","histories"],"All interleavings of listing, reading values, metadata and provided data with registering, re-registering, moving and dropping metrics on other threads.",
"Existing tests are single threaded with respect to the registry and use a metric whose freed memory would still read back plausibly.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/lib.rs","metriken-core/src/metrics.rs","metriken-core/src/provide.rs","metriken-core/src/wrapper.rs"],[("read guard held by the listing","metriken-core/src/metrics.rs: Metrics.dyn_metrics"),("unregister before the metric is destroyed","metriken-core/src/dynmetrics.rs: impl Drop for DynPinnedMetric"),("pinning","metriken-core/src/dynmetrics.rs: DynPinnedMetric::register"),("raw pointer dereference","metriken-core/src/lib.rs: MetricEntry::metric"),("type-erased downcasts","metriken-core/src/provide.rs")],
[("MetricEntry.metric","raw pointer to the live metric","metriken-core/src/lib.rs")],["metrics()","MetricEntry accessors"])

p("C08","Every declared static metric is listed once, as declared",
"In any program, every static annotated with the metric attribute or declared with the macro behind it, wherever it is declared and whatever its metric type, appears exactly once among the static metrics, and nothing else does. Its entry carries the declared name (the static's identifier when none is given), description, formatter and exactly the declared metadata, and reports the value of that very static, which keeps its visibility and its other attributes. Declarations in other linked crates and through re-exported macro paths behave the same.",
["programs"],"All programs: any number of declarations, in modules, functions, macros and dependency crates, any identifier, name, description, metadata and formatter expression, any metric type, debug and optimised builds.",
"Existing tests declare one to three metrics per binary with a single metadata key.",
["metriken-derive/src/metric.rs","metriken-derive/src/args.rs","metriken-core/src/lib.rs","metriken-core/src/wrapper.rs"],[("attribute expansion","metriken-derive/src/metric.rs: metric"),("linker-collected slice","metriken-core/src/lib.rs: export::METRICS, declare_metric_v1!")],
None,["Metrics::static_metrics","MetricEntry accessors"])

p("C09","Listing and metadata iterators agree however they are driven",
"A listing of all metrics yields every static and every dynamic metric exactly once, and any mixture of next, next_back, nth, nth_back, size_hint, len, count, fold, rfold and other iterator methods sees one and the same sequence, consumed from both ends and never skipping, repeating or inventing an entry. Size hints always bracket, and where a length is promised equal, the number of entries left. The same holds for the dynamic-only and the metadata iterators, which keep returning nothing once exhausted.",
["inputs","histories"],"All numbers of static and dynamic metrics and metadata keys including none, all call sequences on the iterators.",
"Existing tests only collect or count a forward iteration; no test uses nth, the back end, folds or size hints.",
["metriken-core/src/metrics.rs","metriken-core/src/metadata.rs"],[("chained two-part iterator","metriken-core/src/metrics.rs: MetricsIter, DynMetricsIter"),("metadata iterator","metriken-core/src/metadata.rs: MetadataIter")],
None,["Metrics::{iter,dynamic_metrics}","Metadata::iter"])

p("C10","Names, descriptions and metadata are reported as given",
"A dynamic metric reports exactly the name, description and metadata it was built with, for any strings including empty and non-ASCII ones: a later value for the same metadata key or a later description replaces the earlier one, and no description stays none. All ways of reading metadata (lookup, membership, length, emptiness, iteration, a clone) agree with one another and with that map; a metric without metadata reports an empty one. Metadata of one metric never shows up on another.",
["inputs","configurations"],"All builder call sequences and strings, metadata maps of any size, static and dynamic metadata.",
"One existing test reads two fixed keys of one dynamic metric.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/metadata.rs","metriken-core/src/lib.rs"],[("builder","metriken-core/src/dynmetrics.rs: MetricBuilder"),("metadata map","metriken-core/src/metadata.rs: Metadata"),("typed lookup of metadata","metriken-core/src/lib.rs: MetricEntry::metadata")],
None,["MetricEntry::{name,description,metadata}","Metadata methods"])

p("C11","Typed requests return what was provided for that type, or nothing",
"Requesting a value or a reference of some type from a metric returns the first thing provided for exactly that type and kind, and nothing if none was; a value never answers a request for a reference nor the reverse, and no other type is ever confused with it. Data attached when building a dynamic metric is returned for as long as the metric lives, takes precedence over what the metric itself provides, and the last one attached of a type wins. Lazily computed values are computed only when they answer the request, and asking whether a request would be satisfied predicts exactly that.",
["inputs","histories"],"All sets and orders of provided types (sized, unsized, zero-sized, over-aligned, owning), all request kinds, static and dynamic metrics.",
"One existing unit test requests one reference type from a map with one entry.",
["metriken-core/src/provide.rs","metriken-core/src/dynmetrics.rs","metriken-core/src/wrapper.rs"],[("type tags and unchecked downcast","metriken-core/src/provide.rs: Request, Erased, TaggedOption"),("attached data","metriken-core/src/provide.rs: ProviderMap"),("precedence","metriken-core/src/dynmetrics.rs: ProviderMetric::provide")],
None,["MetricEntry::{request_value,request_ref}","request_value/request_ref","Request methods"])

p("C12","Metrics are formatted by their own formatter, else unambiguously",
"Formatting an entry calls the formatter given for that metric, whether declared statically or built dynamically, with that entry and the requested format, and returns its result unchanged; formatters may format entries themselves. Without one, the simple format is exactly the name, and the Prometheus format is the name followed, when there is metadata, by one brace-enclosed list in which every metadata pair occurs exactly once as key=\"value\" with backslashes, double quotes and line feeds in the value escaped. Parsing that list gives back exactly the metadata, for any values.",
["inputs","configurations"],"All names, metadata keys and values including quotes, backslashes, commas, braces and line feeds, both formats, custom and default formatters, static and dynamic metrics.",
"Existing tests format three static metrics with at most one plain label and never a dynamic one.",
["metriken-core/src/formatter.rs","metriken-core/src/lib.rs","metriken-core/src/dynmetrics.rs"],[("formatter lookup","metriken-core/src/lib.rs: MetricEntry::formatted"),("default formatter","metriken-core/src/formatter.rs: default_formatter"),("builder formatter","metriken-core/src/dynmetrics.rs: MetricBuilder::formatter")],
None,["MetricEntry::formatted","default_formatter"])

p("C13","An entry recognises its own metric and no other",
"An entry identifies itself with a metric exactly when that metric is the very instance it was declared or registered for, of the same type: true for every static and dynamic metric's own instance, boxed or pinned, lazily initialised or not, before and after initialisation. It is false for every other metric instance of non-zero size, in particular another of the same type, name and value, and one of a different type at the same address.",
["inputs","configurations"],"All metric types, sizes and alignments, static, boxed, pinned and lazy metrics, and all pairs of distinct instances including nested ones that share an address.",
"Existing tests only look up static counters among each other.",
["metriken-core/src/lib.rs","metriken-core/src/dynmetrics.rs","metriken-core/src/wrapper.rs"],[("type and address comparison","metriken-core/src/lib.rs: MetricEntry::is"),("wrappers that keep the metric's address","metriken-core/src/wrapper.rs: MetricWrapper, metriken-core/src/dynmetrics.rs: ProviderMetric")],
None,["MetricEntry::is"])

p("C14","A snapshot records every enabled metric once, completely",
"A snapshot contains exactly one record for each registered metric that the filter accepts and that currently has a counter, gauge or loaded histogram value, filed under its kind, and nothing else. Each record carries the metric's simple-format name, its exact current value, all of its metadata plus its description if it has one and, for histograms, the configuration parameters, which replace metadata of the same key. The snapshot carries the snapshotter's own metadata and a time taken during the call.",
["inputs","configurations","histories"],"All populations of static, dynamic, lazy, custom and histogram metrics with any metadata and descriptions, all filters and all values, repeated snapshots as the population changes.",
"No existing test takes a snapshot.",
["metriken-exposition/src/snapshotter.rs","metriken-exposition/src/snapshot.rs"],[("walk over the listing","metriken-exposition/src/snapshotter.rs: Snapshotter::snapshot"),("builder","metriken-exposition/src/snapshotter.rs: SnapshotterBuilder")],
None,["Snapshotter::snapshot","Snapshot accessors"])

p("C15","Snapshots taken during updates are never wrong",
"Each value in a snapshot is one the metric really held at some moment during the snapshot call: a counter or histogram reading includes every update finished before the call began and none begun after it ended, so successive snapshots of a growing metric never go backwards. A metric registered before the call and dropped after it is in the snapshot exactly once; one dropped before the call or registered after it is not. Record contents are never mixed up between metrics, however registration, dropping and updating race with the snapshot.",
["schedules","histories"],"All interleavings of snapshots from several threads with updates, registration and removal of metrics.",
"No existing test takes a snapshot, let alone a concurrent one.",
["metriken-exposition/src/snapshotter.rs","metriken-core/src/metrics.rs"],[("one listing held for the whole snapshot","metriken-exposition/src/snapshotter.rs: Snapshotter::snapshot"),("registry read lock","metriken-core/src/metrics.rs: metrics")],
None,["Snapshotter::snapshot"])

p("C16","Serialised snapshots read back identical",
"Any snapshot of either version written as msgpack or as JSON and read back is the same snapshot: same version, time and duration to the nanosecond, metadata, and the same counters, gauges and histograms in the same order with the same names, exact 64-bit values, buckets, configuration and metadata. A stream of concatenated msgpack snapshots, or of newline-separated JSON snapshots, reads back as the same sequence. Older data that names its fields and lacks snapshot-level metadata reads back with empty metadata.",
["inputs"],"All snapshots: both versions, any strings, extreme 64-bit values, empty and large sections, any histogram configuration, mixed-version streams.",
"No existing test serialises a snapshot.",
["metriken-exposition/src/snapshot.rs"],[("untagged version enum","metriken-exposition/src/snapshot.rs: Snapshot"),("writers","metriken-exposition/src/snapshot.rs: Snapshot::to_msgpack, Snapshot::to_json")],
None,["Snapshot::{to_msgpack,to_json}","Deserialize for Snapshot"])

p("C17","Parquet output holds every reading of every snapshot, in order",
"Converting any sequence of snapshots gives a readable parquet file with exactly one row per snapshot in input order, and reports that number of rows. Each row has the snapshot's time and, for version 2 only, duration in nanoseconds, and for every metric exactly the value that snapshot recorded for it (histograms bucket for bucket in the dense, and as index/count pairs of the non-zero buckets in the sparse representation) and null if it did not record that metric. This holds for every option setting, for the file and the in-memory interfaces alike, and wherever the handle passed in is positioned.",
["inputs","configurations"],"All snapshot sequences with metrics appearing and disappearing, kinds sharing names, any values, both versions mixed, both histogram types, every batch size and compression setting, any number of rows.",
"Existing tests write two snapshots with the same three metrics in each, so no null and no appearing or disappearing metric is ever exercised; the msgpack converter is not tested at all.",
["metriken-exposition/src/parquet.rs","metriken-exposition/src/convert.rs","metriken-exposition/src/snapshot.rs"],[("schema pass","metriken-exposition/src/parquet.rs: ParquetSchema::push/finalize"),("row pass","metriken-exposition/src/parquet.rs: ParquetWriter::push/finalize"),("two-pass driver","metriken-exposition/src/convert.rs: MsgpackToParquet::convert_file_handle")],
None,["MsgpackToParquet::{convert_file_path,convert_file_handle}","ParquetSchema/ParquetWriter"])

p("C18","Parquet columns describe the metrics they came from",
"The output has a time and a duration column and exactly one column per distinct metric name and kind seen in any input snapshot (two for a sparse histogram), typed by kind, each carrying the metadata the metric had when first seen plus its kind. File-level metadata is that of the first snapshot that has any, extended and overridden by what the caller supplied. No row group exceeds the configured batch size, all but the last are full, and data is stored with the requested compression; a zstd level that does not exist is refused with an error.",
["inputs","configurations"],"All snapshot sequences and metadata, all option settings, all caller-supplied metadata.",
"Existing tests check five column names and one batch size; no metadata, type, nullability or compression.",
["metriken-exposition/src/parquet.rs","metriken-exposition/src/convert.rs"],[("union of metrics over all snapshots","metriken-exposition/src/parquet.rs: ParquetSchema::push"),("field construction and metadata merge","metriken-exposition/src/parquet.rs: ParquetSchema::finalize"),("options","metriken-exposition/src/parquet.rs: ParquetOptions")],
None,["parquet footer and schema of the output"])

p("C19","Column names are a fixed function of a metric's labels",
"A metric without a `metric` label keeps its recorded name as column name. With one, the name is that label's value followed, separated by slashes, by the values of its name, op, state and direction labels in this order, then of all other labels in ascending order of key, then of its id label; unit, grouping_power and max_value_power never contribute. The same metric therefore lands in the same column in every snapshot and every run, and metrics with the same label keys that differ in a contributing slash-free value land in different columns, each with its own values.",
["inputs"],"All label sets: any subset of the special labels, any number of further labels, any insertion order, any values.",
"No existing test has a metric label.",
["metriken-exposition/src/snapshot.rs","metriken-exposition/src/parquet.rs"],[("name construction","metriken-exposition/src/snapshot.rs: canonicalize_metric_name"),("same function on the schema and the row path","metriken-exposition/src/parquet.rs: ParquetSchema::push, metriken-exposition/src/snapshot.rs: HashedSnapshot::from")],
None,["column names and cells of the output"])

p("C20","Conversion fails cleanly: an error, never a panic or false success",
"Converting input that is truncated, corrupt or unreadable, or writing to an output that fails, returns an error: it never panics, hangs or reports success. Whenever it reports success the output is a complete, readable file containing every snapshot of the input, however the reads and writes were split up. Input that ends exactly between two snapshots converts all snapshots before the end.",
["fault_sequences","inputs","crash_points"],"Every truncation point, any byte corruption, a failure at every read, seek, write and flush, short reads and writes.",
"No existing test runs the converter or injects a failure.",
["metriken-exposition/src/convert.rs","metriken-exposition/src/parquet.rs"],[("error propagation","metriken-exposition/src/convert.rs: MsgpackToParquet::convert_file_handle"),("footer written last","metriken-exposition/src/parquet.rs: ParquetWriter::finalize")],
None,["result of MsgpackToParquet::convert_file_handle","bytes written"])

p("C21","Recording never waits for the registry, and nothing deadlocks",
"Updating or directly reading any counter, gauge, histogram or lazy metric completes while other threads hold listings open and registrations or drops are waiting for them. Listings can be open on several threads at once when no registration is pending, registering and dropping complete once the open listings are closed, and any mixture of these operations, each thread holding at most one listing and not registering or dropping meanwhile, always runs to completion. A conversion that waits for its input or output keeps no other one from completing.",
["schedules"],"All interleavings of recorders, listers, snapshotters, converters, registrars and droppers that respect the documented listing rule.",
"Existing tests serialise all registry access under one mutex.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/metrics.rs","metriken/src/counter.rs","metriken/src/gauge.rs","metriken/src/histogram.rs","metriken/src/lazy.rs"],[("reader-writer lock only around the registry","metriken-core/src/dynmetrics.rs: REGISTRY"),("metrics own their storage","metriken/src/counter.rs, metriken/src/gauge.rs, metriken/src/histogram.rs")],
None,["completion of every public call"])

p("C22","A panic in user code leaves the library working",
"When user-supplied code called by the library (a metric's value, data provision or destructor, a formatter, a snapshot filter, attached data's destructor, the input or output of a conversion) panics, the panic reaches the caller and nothing else is affected. Afterwards registering, dropping, listing, formatting, snapshotting and converting work on every thread, and listings hold exactly the live metrics; in particular a metric whose destructor panicked is no longer listed.",
["fault_sequences","histories"],"A panic at every callback, at every position in a listing, repeated, on any thread, interleaved with ordinary operations.",
"No existing test panics inside a callback.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/metrics.rs","metriken-exposition/src/snapshotter.rs","metriken-exposition/src/convert.rs"],[("locks without poisoning","metriken-core/src/dynmetrics.rs: REGISTRY (parking_lot)"),("guard released on unwind","metriken-core/src/metrics.rs: Metrics"),("unregister before destroying the metric","metriken-core/src/dynmetrics.rs: impl Drop for DynPinnedMetric")],
None,["state of listings after a caught panic"])

p("C23","Ambiguous metric declarations are rejected at compile time",
"A metric declaration that gives the same argument twice, gives the same metadata key twice in any spelling (identifier, string literal, escaped or raw), uses an argument that does not exist, or is otherwise malformed does not compile. Every well-formed declaration compiles, with arguments in any order.",
["programs"],"All declarations: any argument and any metadata key duplicated at any distance, in any order and spelling, mixed with valid arguments.",
"Two fixed snippets are tested: a duplicated name and one duplicated string key next to each other.",
["metriken-derive/src/metric.rs","metriken-derive/src/args.rs"],[("argument parsing","metriken-derive/src/metric.rs: impl Parse for MetricArgs"),("duplicate detection","metriken-derive/src/metric.rs: MetadataMap::insert, metriken-derive/src/args.rs: SingleArgExt")],
None,["compiler verdict on generated declarations"])
p("C24","An entry reports exactly what its metric reports",
"Whether a metric is declared, boxed or pinned, and whatever data is attached to it, its registry entry reports at every moment what the metric itself reports: enabled exactly when the metric says it is, the same concrete object (same address and type, or none) and the same value (kind and content, or none). Each answer is the metric's own of that moment: nothing is remembered, and none of the three is inferred from another, except that a metric type which does not say whether it is enabled is enabled exactly when it exposes a concrete object. Counters, gauges and histograms are always enabled, recorded into or not, and expose themselves. An entry built without a metric is disabled and reports nothing.",
["inputs","histories","schedules"],"All metric types, built-in and user-defined, of any size and alignment; all combinations of the three answers, changing at any time, also while a listing is held and from other threads.",
"Existing tests use only the built-in types with one value each; none has a metric whose enabled state, object and value differ or change.",
["metriken-core/src/lib.rs","metriken-core/src/dynmetrics.rs","metriken-core/src/wrapper.rs","metriken-core/src/null.rs"],[("default enabled state","metriken-core/src/lib.rs: Metric::is_enabled"),("forwarding wrappers","metriken-core/src/dynmetrics.rs: impl Metric for ProviderMetric, metriken-core/src/wrapper.rs: impl Metric for MetricWrapper"),("entry without a metric","metriken-core/src/null.rs: NullMetric")],
None,["MetricEntry (Deref to Metric)","MetricEntry::metric","Metric::{is_enabled,as_any,value}"])

p("C25","A recording arrives in the table as the history of every metric",
"Taking snapshots of live metrics with one snapshotter, carrying them as objects, MessagePack or JSON, and converting the sequence to parquet yields a table in which every row tells what the metrics held at that snapshot: for each metric then registered and accepted by the filter the value it held, in the column its name and labels call for, null for every metric without a reading then, and no column, row or value besides. A metric that is dropped and created again with the same name and labels continues its column. Descriptions, labels and histogram configuration reach the column metadata, the snapshotter's metadata that of the file. For metrics updated meanwhile, a counter's cells count no fewer increments than had ended before the snapshot or than the row above, and no more than had begun when it ended.",
["inputs","histories","schedules","configurations"],"All histories of registering, updating, re-registering and dropping metrics of every kind between snapshots, all filters, carriers, conversion interfaces and options; metrics that call for the same column at the same time are out of scope.",
"No existing test goes from a live metric to a file; snapshotting, serialisation and conversion are each tested alone with hand-made values.",
["metriken-exposition/src/snapshotter.rs","metriken-exposition/src/snapshot.rs","metriken-exposition/src/convert.rs","metriken-exposition/src/parquet.rs"],[("readings and labels","metriken-exposition/src/snapshotter.rs: Snapshotter::snapshot"),("carriers and the row's view of a snapshot","metriken-exposition/src/snapshot.rs: to_msgpack, to_json, HashedSnapshot::from, canonicalize_metric_name"),("conversion","metriken-exposition/src/convert.rs: MsgpackToParquet, metriken-exposition/src/parquet.rs: ParquetSchema, ParquetWriter")],
None,["Snapshotter::snapshot","Snapshot::{to_msgpack,to_json}","MsgpackToParquet::{convert_file_path,convert_file_handle}","ParquetSchema/ParquetWriter"])
p("C26","What is dropped is released, once, and nothing is kept",
"Everything handed to the library is destroyed exactly once: a metric, and the data attached to it, by the time the drop of its owner has returned, never while it lives, whether it was registered once, several times or never, on whichever thread, and also when its destructor panics; data replaced by other data of its type, and the data of an entry given up for another, no later than that; a builder or entry that is not used, with all it was given, when it is dropped; a lazy's initialiser and its value no later than the lazy; a value provided in answer to a request but not handed out no later than the answer; the input and output given to a conversion by its end, successful or not, and the files it opens itself are closed. Memory in use depends on what is alive and not on the past: making and disposing of metrics, listings, requests, formatted names, histogram loads, snapshots and conversions over and over, under new names every time, does not make it grow.",
["histories","inputs","schedules","fault_sequences"],"All histories of building, attaching, registering, re-registering, requesting, listing, recording and dropping, on any threads, with any number of rounds, names and types.",
"No existing test counts destructions or looks at memory in use; each ends with its process.",
["metriken-core/src/dynmetrics.rs","metriken-core/src/metadata.rs","metriken/src","metriken-exposition/src"],[("removal from the registry and ownership","metriken-core/src/dynmetrics.rs: DynPinnedMetric::drop, MetricBuilder, DynBoxedMetric"),("attached data and provided values","metriken-core/src/dynmetrics.rs: ProviderMap, metriken-core/src/provide.rs"),("lazies","metriken/src/lazy.rs"),("recording and conversion","metriken-exposition/src/snapshotter.rs, metriken-exposition/src/convert.rs")],
None,["DynBoxedMetric","DynPinnedMetric","MetricBuilder","MetricEntry","Lazy","Snapshotter::snapshot","MsgpackToParquet","ParquetWriter"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
