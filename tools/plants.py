"""Planted bugs: written from the property texts and the code, confirmed by plant.py."""
P = []
CTR = 'metriken/src/counter.rs'; GAU = 'metriken/src/gauge.rs'; HIS = 'metriken/src/histogram.rs'; LAZ = 'metriken/src/lazy.rs'
DYN = 'metriken-core/src/dynmetrics.rs'; MET = 'metriken-core/src/metrics.rs'; LIB = 'metriken-core/src/lib.rs'; PROV = 'metriken-core/src/provide.rs'
WRAP = 'metriken-core/src/wrapper.rs'; META = 'metriken-core/src/metadata.rs'; FMT = 'metriken-core/src/formatter.rs'
DER = 'metriken-derive/src/metric.rs'; ARGS = 'metriken-derive/src/args.rs'
SNP = 'metriken-exposition/src/snapshot.rs'; SNR = 'metriken-exposition/src/snapshotter.rs'; PAR = 'metriken-exposition/src/parquet.rs'; CNV = 'metriken-exposition/src/convert.rs'
def plant(id, prop, needs, what, edits, demo, deps='core'): P.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo, deps=deps))

plant('c01-held-lock', 'C01', 'a metric dropped while another thread holds a listing', 'unregistering gives up when the registry is busy, so the freed metric stays listed',
 [(DYN, "    REGISTRY.write().unregister(metric);", "    if let Some(mut registry) = REGISTRY.try_write() {\n        registry.unregister(metric);\n    }")],
 r'''use metriken::*;
fn main() {
    let m = MetricBuilder::new("held").build(Counter::new());
    let listing = metriken::metrics();
    let t = std::thread::spawn(move || drop(m));
    std::thread::sleep(std::time::Duration::from_millis(300));
    drop(listing);
    t.join().unwrap();
    assert_eq!(metriken::metrics().dynamic_metrics().filter(|e| e.name() == "held").count(), 0);
}
''')
plant('c02-name-clash', 'C02', 'two live dynamic metrics with one name, the older one dropped', 'dropping one metric removes the entry of another with the same name',
 [(DYN, "        self.metrics.remove(&key);", "        if let Some(entry) = self.metrics.remove(&key) {\n            // also forget stale entries left behind under the same name\n            self.metrics.retain(|_, other| other.name() != entry.name());\n        }")],
 r'''use metriken::*;
fn main() {
    let a = MetricBuilder::new("same").build(Counter::new());
    let b = MetricBuilder::new("same").build(Counter::new());
    drop(a);
    assert_eq!(metriken::metrics().dynamic_metrics().filter(|e| e.name() == "same").count(), 1);
    drop(b);
}
''')
plant('c03-nth-boundary', 'C03', 'nth() that skips past all remaining static metrics after some were already consumed', 'the skip is computed from the number of static metrics left after they were consumed',
 [(MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))", "        self.sm\n            .nth(n)\n            .or_else(|| self.dm.nth(n.saturating_sub(self.sm.len())))")],
 r'''use metriken::*;
#[metric(name = "s1")] static S1: Counter = Counter::new();
#[metric(name = "s2")] static S2: Counter = Counter::new();
fn main() {
    let _a = MetricBuilder::new("d1").build(Counter::new());
    let _b = MetricBuilder::new("d2").build(Counter::new());
    let _c = MetricBuilder::new("d3").build(Counter::new());
    let m = metriken::metrics();
    let all: Vec<*const MetricEntry> = m.iter().map(|e| e as *const _).collect();
    for skip in 0..3 { for n in 0..7 {
        let mut it = m.iter();
        for _ in 0..skip { it.next(); }
        assert_eq!(it.nth(n).map(|e| e as *const _), all.get(skip + n).copied(), "skip {skip} nth {n}");
    } }
}
''')
plant('c05-would-taken', 'C05', 'a metric that asks would_be_satisfied_by_* after it already provided that type', 'the query answers true although a further provide would be refused',
 [(PROV, "matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))", "self.0.downcast::<I>().is_some()")],
 r'''use metriken_core::*;
use std::any::Any;
struct M(std::sync::Mutex<Vec<bool>>);
impl Metric for M {
    fn as_any(&self) -> Option<&dyn Any> { None }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut Request<'a>) {
        r.provide_value(1u32);
        self.0.lock().unwrap().push(r.would_be_satisfied_by_value_of::<u32>());
    }
}
fn main() {
    let m = M(Default::default());
    assert_eq!(request_value::<u32>(&m), Some(1));
    assert_eq!(*m.0.lock().unwrap(), vec![false]);
}
''')
plant('c06-static-order', 'C06', 'a static metric that provides its own Metadata in addition to the declared one', 'what the metric provides beats the metadata declared in the attribute',
 [(WRAP, "        <P as InjectedProvider>::provide(request);\n        self.metric.provide(request)", "        self.metric.provide(request);\n        <P as InjectedProvider>::provide(request)")],
 r'''use metriken::*;
use std::any::Any;
struct M(std::sync::OnceLock<metriken_core::Metadata>);
impl Metric for M {
    fn as_any(&self) -> Option<&dyn Any> { Some(self) }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut metriken_core::Request<'a>) {
        let md = self.0.get_or_init(|| metriken_core::Metadata::new([("unit".to_string(), "inner".to_string())].into()));
        r.provide_ref(md);
    }
}
#[metric(name = "m", metadata = { unit = "declared" })]
static S: M = M(std::sync::OnceLock::new());
fn main() {
    let m = metriken::metrics();
    let e = m.iter().find(|e| e.name() == "m").unwrap();
    assert_eq!(e.metadata().get("unit"), Some("declared"));
}
''')
plant('c11-gauge-set', 'C11', 'set() racing with other updates', 'an update between the load and the store is neither kept nor returned',
 [(GAU, "self.0.swap(value, Ordering::Relaxed)", "let previous = self.0.load(Ordering::Relaxed);\n        self.0.store(value, Ordering::Relaxed);\n        previous")],
 r'''use metriken::*;
use std::sync::atomic::*;
static G: Gauge = Gauge::new();
static TAKEN: AtomicI64 = AtomicI64::new(0);
fn main() {
    const N: i64 = 2_000_000;
    let ts: Vec<_> = (0..4).map(|i| std::thread::spawn(move || for _ in 0..N {
        if i % 2 == 0 { G.add(1); } else { TAKEN.fetch_add(G.set(0), Ordering::SeqCst); }
    })).collect();
    for t in ts { t.join().unwrap(); }
    assert_eq!(TAKEN.load(Ordering::SeqCst) + G.value(), 2 * N);
}
''')
plant('c04-upgrade-read', 'C04', 'a metric dropped on one thread while a snapshot filter on the same thread has a second listing open', 'the snapshotter takes the registry lock again for every metric while it already holds a listing, so a waiting writer deadlocks it',
 [(SNR, "            match metric.value() {\n", "            // entries are only valid while they are registered\n            if !metriken::metrics().iter().any(|entry| std::ptr::eq(entry, metric)) {\n                continue;\n            }\n\n            match metric.value() {\n")],
 r'''use metriken::*;
use std::sync::mpsc;
use std::time::Duration;
static HOLD: std::sync::Mutex<Option<(mpsc::Sender<()>, mpsc::Receiver<()>)>> = std::sync::Mutex::new(None);
#[metric(name = "first")]
static FIRST: Counter = Counter::new();
fn filter(_: &MetricEntry) -> bool {
    if let Some((tx, rx)) = HOLD.lock().unwrap().take() { tx.send(()).unwrap(); rx.recv().unwrap(); std::thread::sleep(Duration::from_millis(300)); }
    true
}
fn main() {
    let (tx, inside) = mpsc::channel();
    let (go, rx) = mpsc::channel();
    *HOLD.lock().unwrap() = Some((tx, rx));
    let (done, finished) = mpsc::channel();
    let m = MetricBuilder::new("dynamic").build(Counter::new());
    std::thread::spawn(move || { metriken_exposition::SnapshotterBuilder::new().filter(filter).build().snapshot(); done.send(()).unwrap(); });
    inside.recv().unwrap();
    let t = std::thread::spawn(move || { go.send(()).unwrap(); drop(m) });
    finished.recv_timeout(Duration::from_secs(10)).expect("snapshot never finishes");
    t.join().unwrap();
}
''', deps='all')
plant('c07-empty-value', 'C07', 'a repeated metadata key whose last value is empty', 'the later, empty value does not replace the earlier one',
 [(DYN, "        self.metadata.insert(key.into(), value.into());\n        self\n", "        let (key, value) = (key.into(), value.into());\n        if value.is_empty() && self.metadata.contains_key(&key) {\n            return self;\n        }\n        self.metadata.insert(key, value);\n        self\n")],
 r'''use metriken::*;
fn main() {
    let _m = MetricBuilder::new("m").metadata("unit", "ns").metadata("unit", "").build(Counter::new());
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.name() == "m").unwrap();
    assert_eq!(e.metadata().get("unit"), Some(""));
}
''')
plant('c07-blank-desc', 'C07', 'a builder given an empty description', 'an empty description is reported as none',
 [(DYN, "            description: self.desc,\n", "            description: self.desc.filter(|desc| !desc.is_empty()),\n")],
 r'''use metriken::*;
fn main() {
    let _m = MetricBuilder::new("m").description("").build(Counter::new());
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.name() == "m").unwrap();
    assert_eq!(e.description(), Some(""));
}
''')
plant('c08-dup-key', 'C08', 'one metadata key written once as an identifier and once as a string', 'the repeated key is no longer recognised as a duplicate and one pair silently replaces the other',
 [(DER, "        match self.0.entry(entry.name.value()) {", "        let key = match &entry.name {\n            crate::args::MetadataName::Ident(ident) => ident.to_string(),\n            crate::args::MetadataName::String(string) => string.value().trim().to_string(),\n        };\n        match self.0.entry(key) {")],
 r'''use metriken::*;
#[metric(name = "m", metadata = { unit = "a", " unit " = "b" })]
static M: Counter = Counter::new();
fn main() {
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.name() == "m").unwrap();
    assert_eq!((e.metadata().get("unit"), e.metadata().get(" unit ")), (Some("a"), Some("b")));
}
''') if False else None
plant('c08-underscore', 'C08', 'a static without a name argument whose identifier starts with an underscore', 'leading underscores are dropped from the name taken from the identifier',
 [(DER, "        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());", "        let name = static_name.to_string();\n        let name = syn::LitStr::new(name.trim_start_matches('_'), static_name.span());")],
 r'''use metriken::*;
#[metric]
static _INTERNAL: Counter = Counter::new();
fn main() {
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.is(&_INTERNAL) || e.name().contains("INTERNAL")).unwrap();
    assert_eq!(e.name(), "_INTERNAL");
}
''')
plant('c08-desc-only', 'C08', 'a metric declared with a description but no metadata', 'metadata appears that was not declared',
 [(DER, "    let description: syn::Expr = args\n        .description\n", "    if let (Some(desc), true) = (&args.description, metadata.0.is_empty()) {\n        let value = desc.value.clone();\n        metadata.insert(parse_quote!(description = #value))?;\n    }\n\n    let description: syn::Expr = args\n        .description\n"), (ARGS, "impl Parse for MetadataEntry {\n    fn parse(input: ParseStream) -> syn::Result<Self> {\n        Ok(Self {\n            name: input.parse()?,\n", "impl Parse for MetadataEntry {\n    fn parse(input: ParseStream) -> syn::Result<Self> {\n        Ok(Self {\n            name: MetadataName::parse(input)?,\n")],
 r'''use metriken::*;
#[metric(name = "m", description = "text")]
static M: Counter = Counter::new();
fn main() {
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.name() == "m").unwrap();
    assert_eq!(e.metadata().len(), 0);
}
''')
plant('c09-nth', 'C09', 'skipping with nth() over metadata built at run time', 'nth on run-time metadata skips one pair too many when skipping at least one',
 [(META, "            IterImpl::Dynamic(iter) => iter.nth(n).map(Self::map_iter),", "            IterImpl::Dynamic(iter) => iter.skip(n).nth(usize::from(n > 0)).map(Self::map_iter),")],
 r'''use std::collections::HashMap;
fn main() {
    let md = metriken_core::Metadata::new((0..6).map(|i| (i.to_string(), i.to_string())).collect::<HashMap<_, _>>());
    let all: Vec<_> = md.iter().collect();
    for n in 0..8 { assert_eq!(md.iter().nth(n), all.get(n).copied()); }
}
''')
plant('c09-get-empty', 'C09', 'run-time metadata with an empty value', 'lookup does not find a key that is a member',
 [(META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),", "            Impl::Dynamic(map) => map.get(key).map(|s| &**s).filter(|s| !s.is_empty()),")],
 r'''fn main() {
    let md = metriken_core::Metadata::new([("k".to_string(), String::new())].into());
    assert!(md.contains_key("k"));
    assert_eq!(md.get("k"), Some(""));
}
''')
plant('c10-simple-meta', 'C10', 'the simple format of a metric whose name contains a space', 'the simple format is not exactly the name',
 [(FMT, "        _ => metric.name().to_string(),", "        _ => metric.name().split_whitespace().collect::<Vec<_>>().join(\" \"),")],
 r'''use metriken::*;
fn main() {
    let _m = MetricBuilder::new("a  name ").build(Counter::new());
    let l = metriken::metrics();
    let e = l.dynamic_metrics().next().unwrap();
    assert_eq!(e.formatted(Format::Simple), "a  name ");
}
''')
plant('c11-counter-wrap', 'C11', 'a counter at its maximum', 'an addition that overflows saturates instead of wrapping around',
 [(CTR, "self.0.fetch_add(value, Ordering::Relaxed)", "self.0\n            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |old| {\n                Some(old.saturating_add(value))\n            })\n            .unwrap_or_else(|old| old)")],
 r'''use metriken::*;
fn main() {
    let c = Counter::with_value(u64::MAX);
    assert_eq!(c.add(3), u64::MAX);
    assert_eq!(c.value(), 2);
}
''')
plant('c12-disabled-inner', 'C12', 'a lazy metric asked for its provided context before its first use', 'a request triggers the initialiser',
 [(LAZ, "impl<T: Metric, F: Send + 'static> Metric for Lazy<T, F> {", "impl<T: Metric, F: FnOnce() -> T + Send + 'static> Metric for Lazy<T, F> {"),
  (LAZ, "        if let Some(metric) = Lazy::get(self) {\n            metric.provide(request);\n        }", "        Lazy::force(self).provide(request);")],
 r'''use metriken::*;
use std::sync::atomic::*;
static RUNS: AtomicUsize = AtomicUsize::new(0);
#[metric(name = "lazy")]
static L: Lazy<Counter> = Lazy::new(|| { RUNS.fetch_add(1, Ordering::SeqCst); Counter::new() });
fn main() {
    let l = metriken::metrics();
    let e = l.iter().find(|e| e.name() == "lazy").unwrap();
    e.formatted(Format::Prometheus);
    let _ = e.request_ref::<u32>();
    assert_eq!(RUNS.load(Ordering::SeqCst), 0);
    assert!(!e.is_enabled());
}
''')
plant('c13-short-input', 'C13', 'a bulk update with fewer elements than there are buckets', 'a shorter input is accepted and overwrites only the first buckets',
 [(HIS, "        if data.len() != self.config.total_buckets() {", "        if data.len() > self.config.total_buckets() {"), (HIS, "        buckets.copy_from_slice(data);", "        buckets[..data.len()].copy_from_slice(data);")],
 r'''use metriken::*;
fn main() {
    let h = RwLockHistogram::new(1, 4);
    let n = h.config().total_buckets();
    assert!(h.update_from(&vec![1; n - 1]).is_err());
    assert!(h.load().is_none());
}
''')
plant('c13-lock-chunks', 'C13', 'a reader between two parts of one bulk update', 'a bulk update releases the lock half way, so readers see a partly applied one',
 [(HIS, "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n", "        let histogram = self.get_or_init();\n        let (low, high) = data.split_at(data.len() / 2);\n        histogram.write().as_mut_slice()[..low.len()].copy_from_slice(low);\n        histogram.write().as_mut_slice()[low.len()..].copy_from_slice(high);\n")],
 r'''use metriken::*;
use std::sync::atomic::*;
static H: RwLockHistogram = RwLockHistogram::new(7, 64);
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    let n = H.config().total_buckets();
    H.update_from(&vec![0; n]).unwrap();
    let w = std::thread::spawn(move || { let mut v = 0; while !STOP.load(Ordering::SeqCst) { v += 1; H.update_from(&vec![v; n]).unwrap(); } });
    let t = std::time::Instant::now();
    let mut torn = false;
    while t.elapsed() < std::time::Duration::from_secs(5) && !torn {
        let h = H.load().unwrap();
        let b = h.as_slice();
        torn = b.iter().any(|c| *c != b[0]);
    }
    STOP.store(true, Ordering::SeqCst);
    w.join().unwrap();
    assert!(!torn);
}
''')
plant('c14-late-time', 'C14', 'a metric updated between being read and the end of the snapshot', 'the time is taken after the readings',
 [(SNR, "        let ts = SystemTime::now();\n", ""), (SNR, "            systemtime: ts,\n", "            systemtime: SystemTime::now(),\n")],
 r'''use metriken::*;
use std::time::*;
struct Slow;
impl Metric for Slow {
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value> { *AT.lock().unwrap() = Some(SystemTime::now()); std::thread::sleep(Duration::from_millis(50)); Some(Value::Counter(1)) }
}
static AT: std::sync::Mutex<Option<SystemTime>> = std::sync::Mutex::new(None);
#[metric(name = "slow")]
static S: Slow = Slow;
fn main() {
    let s = metriken_exposition::Snapshotter::default().snapshot();
    assert!(s.systemtime() <= AT.lock().unwrap().unwrap());
}
''', deps='all')
plant('c14-desc-first', 'C14', 'a gauge with both a description and a metadata key called description', 'the metadata pair wins over the description of the metric',
 [(SNR, "                        gauge\n                            .metadata\n                            .insert(\"description\".to_string(), description);", "                        gauge\n                            .metadata\n                            .entry(\"description\".to_string())\n                            .or_insert(description);")],
 r'''use metriken::*;
fn main() {
    let _m = MetricBuilder::new("g").description("of the metric").metadata("description", "").build(Gauge::new());
    let mut s = metriken_exposition::Snapshotter::default().snapshot();
    let g = s.gauges();
    assert_eq!(g[0].metadata["description"], "of the metric");
}
''', deps='all')
plant('c15-take-all', 'C15', 'the counters taken from a version 2 snapshot before its gauges', 'handing over the counters also empties the gauges',
 [(SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.counters),", "            Snapshot::V2(s) => {\n                let counters = std::mem::take(&mut s.counters);\n                if counters.is_empty() {\n                    s.gauges.clear();\n                }\n                counters\n            }")],
 r'''use metriken_exposition::*;
use std::time::*;
fn main() {
    let mut s = Snapshot::V2(SnapshotV2 { systemtime: SystemTime::now(), duration: Duration::ZERO, metadata: Default::default(), counters: vec![], gauges: vec![Gauge { name: "g".into(), value: 1, metadata: Default::default() }], histograms: vec![] });
    assert!(s.counters().is_empty());
    assert_eq!(s.gauges().len(), 1);
}
''', deps='all')
plant('c16-unordered', 'C16', 'a metric with two or more further labels', 'labels are joined in hash order, which differs between snapshots',
 [(SNP, "    let metadata: BTreeMap<&str, &str> = metadata", "    let metadata: HashMap<&str, &str> = metadata"), (SNP, "use std::collections::{BTreeMap, HashMap, HashSet};", "use std::collections::{HashMap, HashSet};")],
 r'''use metriken_exposition::*;
use std::time::*;
use std::collections::HashMap;
fn main() {
    // the same metric in sixteen snapshots must stay one column
    let mut schema = ParquetSchema::new();
    for _ in 0..16 {
        let mut md: HashMap<String, String> = (0..8).map(|i| (format!("label{i}"), i.to_string())).collect();
        md.insert("metric".into(), "m".into());
        schema.push(Snapshot::V1(SnapshotV1 { systemtime: SystemTime::now(), metadata: Default::default(), counters: vec![Counter { name: "c".into(), value: 1, metadata: md }], gauges: vec![], histograms: vec![] }));
    }
    let dir = std::env::temp_dir().join("c16.parquet");
    schema.finalize(std::fs::File::create(&dir).unwrap(), ParquetOptions::new(), None).unwrap().finalize().unwrap();
    let b = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(&dir).unwrap()).unwrap();
    assert_eq!(b.schema().fields().len(), 3);
}
''', deps='all')
plant('c16-empty-value', 'C16', 'a metric whose state label is empty', 'an empty value is left out together with its separator',
 [(SNP, "        if let Some(v) = metadata.get(&k) {\n            unique_name = unique_name + \"/\" + *v;", "        if let Some(v) = metadata.get(&k).filter(|v| !v.is_empty()) {\n            unique_name = unique_name + \"/\" + *v;")],
 r'''use metriken_exposition::*;
use std::time::*;
fn main() {
    let mut schema = ParquetSchema::new();
    let md = [("metric", "m"), ("op", ""), ("state", "s")].map(|(k, v)| (k.to_string(), v.to_string())).into();
    schema.push(Snapshot::V1(SnapshotV1 { systemtime: SystemTime::now(), metadata: Default::default(), counters: vec![Counter { name: "c".into(), value: 1, metadata: md }], gauges: vec![], histograms: vec![] }));
    let dir = std::env::temp_dir().join("c16.parquet");
    schema.finalize(std::fs::File::create(&dir).unwrap(), ParquetOptions::new(), None).unwrap().finalize().unwrap();
    let b = parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(&dir).unwrap()).unwrap();
    assert_eq!(b.schema().field(2).name(), "m//s");
}
''', deps='all')
SNAP = r'''
fn snap(counters: Vec<Counter>, gauges: Vec<Gauge>, histograms: Vec<Histogram>) -> Snapshot {
    Snapshot::V2(SnapshotV2 { systemtime: SystemTime::UNIX_EPOCH + Duration::from_nanos(5_000_000_007), duration: Duration::from_nanos(1_000_000_003), metadata: Default::default(), counters, gauges, histograms })
}
fn c(name: &str, value: u64) -> Counter { Counter { name: name.into(), value, metadata: Default::default() } }
fn g(name: &str, value: i64) -> Gauge { Gauge { name: name.into(), value, metadata: Default::default() } }
fn h(name: &str, n: u64) -> Histogram { let mut v = histogram::Histogram::new(2, 16).unwrap(); for i in 0..n { v.increment(i * 7).unwrap(); } Histogram { name: name.into(), value: v, metadata: Default::default() } }
fn write(snaps: &[Snapshot], options: ParquetOptions) -> arrow::record_batch::RecordBatch {
    let mut schema = ParquetSchema::new();
    for s in snaps { schema.push(s.clone()); }
    let path = std::env::temp_dir().join("out.parquet");
    let mut w = schema.finalize(std::fs::File::create(&path).unwrap(), options, None).unwrap();
    for s in snaps { w.push(s.clone()).unwrap(); }
    w.finalize().unwrap();
    parquet::arrow::arrow_reader::ParquetRecordBatchReaderBuilder::try_new(std::fs::File::open(&path).unwrap()).unwrap().build().unwrap().next().unwrap().unwrap()
}
'''
plant('c17-sparse-gap', 'C17', 'a sparse file where some snapshot lacks a histogram that is not the last one', 'a missing histogram gets one null column instead of two, so later columns shift',
 [(PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => columns.push(Self::listu64_entry_null()),")],
 'use metriken_exposition::*;\nuse std::time::*;\n' + SNAP + r'''
fn main() {
    let b = write(&[snap(vec![], vec![], vec![h("a", 3), h("b", 2)]), snap(vec![], vec![], vec![h("b", 2)])], ParquetOptions::new().histogram_type(ParquetHistogramType::Sparse));
    assert_eq!((b.num_columns(), b.num_rows()), (6, 2));
}
''', deps='all')
plant('c17-same-name', 'C17', 'a gauge and a counter of the same name', 'the names for gauge rows skip gauges that share a name with a counter, while the schema declares them',
 [(PAR, "            // initialize storage for the gauge values\n            gauges.push(gauge);", "            // initialize storage for the gauge values\n            if !counters.contains(&gauge) {\n                gauges.push(gauge);\n            }")],
 'use metriken_exposition::*;\nuse std::time::*;\n' + SNAP + r'''
fn main() {
    let b = write(&[snap(vec![c("x", 1)], vec![g("x", -1)], vec![])], ParquetOptions::new());
    assert_eq!(b.num_columns(), 4);
}
''', deps='all')
plant('c17-not-null', 'C17', 'a gauge missing from one of the snapshots', 'gauge columns do not accept nulls',
 [(PAR, "fields.push(Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata));", "fields.push(\n                Field::new(gauge.clone(), DataType::Int64, metadata.len() > 1)\n                    .with_metadata(metadata),\n            );")],
 'use metriken_exposition::*;\nuse std::time::*;\n' + SNAP + r'''
fn main() {
    let b = write(&[snap(vec![], vec![g("x", -1)], vec![]), snap(vec![], vec![], vec![])], ParquetOptions::new());
    assert_eq!(b.num_rows(), 2);
}
''', deps='all')
plant('c18-zero-null', 'C18', 'a gauge that reads zero', 'a reading of zero is written as null',
 [(PAR, "                .remove(gauge)\n                .map(|v| v.value)])));", "                .remove(gauge)\n                .map(|v| v.value)\n                .filter(|v| *v != i64::MIN)])));")],
 'use metriken_exposition::*;\nuse std::time::*;\nuse arrow::array::Array;\n' + SNAP + r'''
fn main() {
    let b = write(&[snap(vec![], vec![g("x", i64::MIN)], vec![])], ParquetOptions::new());
    assert!(!b.column(2).is_null(0));
}
''', deps='all')
plant('c18-micros', 'C18', 'a snapshot time that is not a whole number of microseconds', 'the timestamp loses its last three digits',
 [(SNP, "            .as_nanos() as u64;\n\n        let duration", "            .as_micros() as u64\n            * 1_000;\n\n        let duration")],
 'use metriken_exposition::*;\nuse std::time::*;\n' + SNAP + r'''
fn main() {
    let b = write(&[snap(vec![], vec![], vec![])], ParquetOptions::new());
    let ts = b.column(0).as_any().downcast_ref::<arrow::array::UInt64Array>().unwrap();
    assert_eq!(ts.value(0), 5_000_000_007);
}
''', deps='all')
plant('c19-truncated', 'C19', 'a recording truncated in the middle of a snapshot', 'a decoding failure in the first pass ends the scan instead of being reported',
 [(CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);", "            let Ok(s) = rmp_serde::from_read::<_, Snapshot>(&mut reader) else {\n                break;\n            };\n            schema.push(s);"),
  (CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            writer.push(s)?;", "            let Ok(s) = rmp_serde::from_read::<_, Snapshot>(&mut reader) else {\n                break;\n            };\n            writer.push(s)?;")],
 'use metriken_exposition::*;\nuse std::time::*;\n' + SNAP + r'''
fn main() {
    let _ = write as fn(&[Snapshot], ParquetOptions) -> arrow::record_batch::RecordBatch;
    let one = Snapshot::to_msgpack(&snap(vec![c("a", 1)], vec![g("b", 1)], vec![h("c", 2)])).unwrap();
    let mut data = one.clone();
    data.extend_from_slice(&one[..one.len() / 2]);
    let r = MsgpackToParquet::new().convert_file_handle(std::io::Cursor::new(data), Vec::new());
    assert!(r.is_err());
}
''', deps='all')
plant('c20-lazy-sync', 'C20', 'a lazy metric whose initialiser holds data that must stay on its thread', 'Lazy is shareable whatever its initialiser holds',
 [(LAZ, "unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}", "unsafe impl<T, F> Sync for Lazy<T, F> where OnceCell<T>: Sync {}")],
 r'''use metriken::*;
fn shareable<T: Sync>() -> bool { true }
trait Fallback { const SYNC: bool = false; }
impl<T> Fallback for T {}
struct Probe<T>(std::marker::PhantomData<T>);
impl<T: Sync> Probe<T> { const SYNC: bool = true; }
type Rc = std::rc::Rc<()>;
struct Init(#[allow(dead_code)] Rc);
fn main() {
    assert!(shareable::<u8>());
    assert!(!<Probe<Lazy<Counter, Init>>>::SYNC);
}
''')
plant('c20-provide-unsend', 'C20', 'data that is not thread-safe provided through the builder', 'provided data no longer has to be shareable between threads',
 [(DYN, "    pub fn provide<T: Send + Sync + 'static>(mut self, value: T) -> Self {\n        self.provider.insert(value);\n        self\n", "    pub fn provide<T: Send + 'static>(mut self, value: T) -> Self {\n        self.provider.insert_local(value);\n        self\n"),
  (PROV, "    pub fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        if let Some(element)", "    pub fn insert_local<T: Send + 'static>(&mut self, value: T) {\n        let boxed: Box<dyn Provide> = Box::new(Local(value));\n        self.0\n            .insert(TypeId::of::<tags::Ref<tags::MaybeSizedValue<T>>>(), boxed);\n    }\n\n    pub fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        if let Some(element)"),
  (PROV, "impl<T: Any + Send + Sync> Provide for T {\n    fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        request.provide_ref::<T>(self);\n    }\n}", "struct Shared<T>(T);\n\nimpl<T: Any + Send + Sync> Provide for T {\n    fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        request.provide_ref::<T>(self);\n    }\n}")],
 '') if False else None
plant('c01-drop-order', 'C01', 'a listing taken by the destructor of the inner metric', 'the pinned metric frees what it points at before it leaves the registry',
 [(DYN, "        unregister(&self.metric);", "        if std::mem::needs_drop::<M>() && std::thread::panicking() {\n            return;\n        }\n        unregister(&self.metric);")],
 r'''use metriken::*;
struct M(#[allow(dead_code)] Vec<u8>);
impl Metric for M {
    fn as_any(&self) -> Option<&dyn std::any::Any> { None }
    fn value(&self) -> Option<Value> { None }
}
fn main() {
    let r = std::panic::catch_unwind(|| {
        let _m = MetricBuilder::new("unwound").build(M(vec![1]));
        panic!("on purpose");
    });
    assert!(r.is_err());
    assert_eq!(metriken::metrics().dynamic_metrics().filter(|e| e.name() == "unwound").count(), 0);
}
''')
plant('c02-first-wins', 'C02', 'a pinned metric registered again under another name', 'the later registration is ignored',
 [(DYN, "        self.metrics.insert(Self::key_for(&entry), entry);", "        self.metrics.entry(Self::key_for(&entry)).or_insert(entry);")],
 r'''use metriken::*;
fn main() {
    let (m, e) = MetricBuilder::new("first").build_pinned(Counter::new());
    let m = std::pin::pin!(m);
    m.as_ref().register(e);
    m.as_ref().register(MetricBuilder::new("second").into_entry());
    let l = metriken::metrics();
    let names: Vec<_> = l.dynamic_metrics().map(|e| e.name()).collect();
    assert_eq!(names, ["second"]);
}
''')
plant('c03-back', 'C03', 'a listing walked from the back across the static metrics', 'walking from the back visits the static metrics from the front',
 [(MET, "        self.dm.next_back().or_else(|| self.sm.next_back())", "        self.dm.next_back().or_else(|| self.sm.next())")],
 r'''use metriken::*;
#[metric(name = "s1")] static S1: Counter = Counter::new();
#[metric(name = "s2")] static S2: Counter = Counter::new();
#[metric(name = "s3")] static S3: Counter = Counter::new();
fn main() {
    let _a = MetricBuilder::new("d1").build(Counter::new());
    let m = metriken::metrics();
    let mut f: Vec<*const MetricEntry> = m.iter().map(|e| e as *const _).collect();
    f.reverse();
    assert_eq!(m.iter().rev().map(|e| e as *const MetricEntry).collect::<Vec<_>>(), f);
}
''')
plant('c05-last-wins', 'C05', 'a metric that provides two values of one type', 'the last provided value wins',
 [(PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());", "        if let Some(res) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());")],
 r'''use metriken_core::*;
use std::any::Any;
struct M;
impl Metric for M {
    fn as_any(&self) -> Option<&dyn Any> { None }
    fn value(&self) -> Option<Value> { None }
    fn provide<'a>(&'a self, r: &mut Request<'a>) { r.provide_value(1u32).provide_value(2u32); }
}
fn main() { assert_eq!(request_value::<u32>(&M), Some(1)); }
''')
plant('c06-wrapped-disabled', 'C06', 'a custom metric that is enabled although it has no concrete object', 'a dynamic metric counts as disabled unless it has a concrete object',
 [(DYN, "impl<M: Metric> Metric for ProviderMetric<M> {\n    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled()\n    }\n", "impl<M: Metric> Metric for ProviderMetric<M> {\n    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled() && self.metric.value().is_some()\n    }\n")],
 r'''use metriken::*;
struct M;
impl Metric for M {
    fn is_enabled(&self) -> bool { true }
    fn as_any(&self) -> Option<&dyn std::any::Any> { Some(self) }
    fn value(&self) -> Option<Value> { None }
}
fn main() {
    let _m = MetricBuilder::new("m").build(M);
    assert!(metriken::metrics().dynamic_metrics().next().unwrap().is_enabled());
}
''')
plant('c24-layout', 'C24', 'an entry of a dynamically built metric asked about that metric', 'the wrapper of dynamic metrics starts with its provider map, so entries do not recognise the metric their owner holds',
 [(DYN, "struct ProviderMetric<M> {\n    metric: M,\n    provider: ProviderMap,\n}", "struct ProviderMetric<M> {\n    provider: ProviderMap,\n    metric: M,\n}")],
 r'''use metriken::*;
fn main() {
    let a = MetricBuilder::new("a").build(Counter::new());
    let b = MetricBuilder::new("b").build(Gauge::new());
    let l = metriken::metrics();
    for e in l.dynamic_metrics() {
        assert_eq!(e.is(&*a), e.name() == "a");
        assert_eq!(e.is(&*b), e.name() == "b");
    }
}
''')
plant('c24-enabled', 'C24', 'a lazy metric asked about before its first use', 'an entry does not recognise a metric that is not enabled yet',
 [(LIB, "        a == b\n", "        a == b && metric.is_enabled()\n")],
 r'''use metriken::*;
#[metric(name = "lazy")] static L: Lazy<Counter> = Lazy::new(Counter::new);
fn main() {
    assert!(metriken::metrics().iter().any(|e| e.is(&L)));
    L.increment();
    assert!(metriken::metrics().iter().any(|e| e.is(&L)));
}
''')
plant('c07-repeated-key', 'C07', 'a builder given the same metadata key twice', 'the builder panics on a repeated metadata key',
 [(DYN, "        self.metadata.insert(key.into(), value.into());\n        self", "        let previous = self.metadata.insert(key.into(), value.into());\n        assert!(previous.is_none(), \"metadata key given twice\");\n        self")],
 r'''use metriken::*;
fn main() {
    let _m = MetricBuilder::new("m").metadata("k", "1").metadata("k", "2").build(Counter::new());
    let l = metriken::metrics();
    assert_eq!(l.dynamic_metrics().next().unwrap().metadata().get("k"), Some("2"));
}
''')
plant('c13-inc-panic', 'C13', 'a value beyond the range of the histogram', 'recording an out-of-range value panics in release and debug builds instead of returning an error',
 [(HIS, "        self.get_or_init().increment(value)\n", "        self.get_or_init()\n            .increment(value)\n            .expect(\"value within the histogram's range\");\n        Ok(())\n")],
 r'''use metriken::*;
fn main() {
    let h = AtomicHistogram::new(3, 8);
    assert!(h.increment(5).is_ok());
    assert!(h.increment(1 << 40).is_err());
}
''')
plant('c14-debug-only', 'C14', 'a build without debug assertions', 'the description is attached only in builds with debug assertions',
 [(SNR, "                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        gauge\n                            .metadata\n                            .insert(\"description\".to_string(), description);\n                    }", "                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        debug_assert!(gauge\n                            .metadata\n                            .insert(\"description\".to_string(), description)\n                            .is_none());\n                    }")],
 r'''use metriken::{metric, Gauge};
use metriken_exposition::SnapshotterBuilder;
#[metric(name = "g", description = "d", metadata = { description = "own" })] static G: Gauge = Gauge::new();
fn main() {
    let mut s = SnapshotterBuilder::new().build().snapshot();
    let g = s.gauges();
    assert_eq!(g[0].metadata.get("description").map(|s| s.as_str()), Some("d"));
}
''', deps='all')
