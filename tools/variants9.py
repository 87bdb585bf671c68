from variants import *
import variants4
def sec(f, a, b):
    t = variants4.sec(f, a, b)
    return t[:-len(b)] if t.endswith(b) else t
# ---- larger refactorings
HCOL = """        for h in self.histograms.iter_mut() {
            let histogram = hs.histograms.remove(h).map(|v| v.value);
"""
ok('n18-row-struct', 'C18',
   (PAR, "        for counter in self.counters.iter_mut() {\n            columns.push(Arc::new(UInt64Array::from(vec![hs\n                .counters\n                .remove(counter)\n                .map(|v| v.value)])));\n        }\n",
         "        columns.extend(self.counters.iter().map(|name| -> ArrayRef {\n            let value = hs.counters.remove(name).map(|c| c.value);\n            Arc::new(UInt64Array::from(vec![value]))\n        }));\n"))
ok('n18-chain', 'C18',
   (PAR, sec(PAR, "        let mut columns: Vec<Arc<dyn Array>> =", "        let mut hs: HashedSnapshot"), ""),
   (PAR, "        columns.push(Arc::new(UInt64Array::from(vec![hs.ts])));\n        columns.push(Arc::new(UInt64Array::from(vec![hs.duration])));\n",
         "        let mut columns: Vec<ArrayRef> = vec![\n            Arc::new(UInt64Array::from(vec![hs.ts])),\n            Arc::new(UInt64Array::from(vec![hs.duration])),\n        ];\n        columns.reserve(self.schema.fields().len());\n"))
ok('n18-hist-outer', 'C18',
   (PAR, sec(PAR, "            if let Some(hist) = histogram {\n", "        let batch = RecordBatch"),
"""            match (self.options.histogram_type, histogram) {
                (ParquetHistogramType::Standard, Some(hist)) => {
                    columns.push(Self::listu64_entry_from_slice(hist.as_slice()));
                }
                (ParquetHistogramType::Standard, None) => columns.push(Self::listu64_entry_null()),
                (ParquetHistogramType::Sparse, Some(hist)) => {
                    let histogram::SparseHistogram { index, count, .. } =
                        histogram::SparseHistogram::from(&hist);
                    columns.push(Self::listu64_entry_from_vec(index));
                    columns.push(Self::listu64_entry_from_slice(&count));
                }
                (ParquetHistogramType::Sparse, None) => {
                    columns.push(Self::listu64_entry_null());
                    columns.push(Self::listu64_entry_null());
                }
            }
        }

"""))
ok('n18-builder', 'C18',
   (PAR, sec(PAR, "        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(\n            v.iter()", "    }\n\n    /// Create a list entry for an arrow lists of u64s from a vector."),
    "        let values = v.iter().copied().map(Some).collect::<Vec<_>>();\n        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>(vec![Some(values)]))\n"))
ok('n18-vec-via-slice', 'C18',
   (PAR, sec(PAR, "        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(\n            v.into_iter()", "    }\n\n    /// Create a null list entry"),
    "        let v: Vec<u64> = v.into_iter().map(|x| x as u64).collect();\n        Self::listu64_entry_from_slice(&v)\n"))
ok('n17-scan-fn', 'C17',
   (PAR, sec(PAR, "        for counter in counters {\n", "        let snap_metadata"),
"""        for Counter { name, metadata, .. } in counters {
            Self::note(&mut self.counters, &name, metadata);
        }
        for Gauge { name, metadata, .. } in gauges {
            Self::note(&mut self.gauges, &name, metadata);
        }
        for Histogram { name, metadata, .. } in histograms {
            Self::note(&mut self.histograms, &name, metadata);
        }

"""),
   (PAR, "    /// Process and store metadata for all metrics seen in the snapshot.\n",
"""    fn note(
        seen: &mut BTreeMap<String, HashMap<String, String>>,
        name: &str,
        metadata: HashMap<String, String>,
    ) {
        let name = canonicalize_metric_name(name, &metadata);
        seen.entry(name).or_insert(metadata);
    }

    /// Process and store metadata for all metrics seen in the snapshot.
"""),
   (PAR, "use crate::snapshot::{canonicalize_metric_name, HashedSnapshot, Snapshot};", "use crate::snapshot::{\n    canonicalize_metric_name, Counter, Gauge, HashedSnapshot, Histogram, Snapshot,\n};"))
ok('n17-typed-fn', 'C17',
   (PAR, sec(PAR, "        for (counter, mut metadata) in self.counters.into_iter() {\n", "        let mut histograms = Vec::with_capacity"),
"""        for (name, metadata) in self.counters {
            fields.push(value_field(&name, DataType::UInt64, "counter", metadata));
            counters.push(name);
        }

        let mut gauges = Vec::with_capacity(self.gauges.len());
        for (name, metadata) in self.gauges {
            fields.push(value_field(&name, DataType::Int64, "gauge", metadata));
            gauges.push(name);
        }

"""),
   (PAR, "pub struct ParquetWriter<W: Write + Send> {\n",
"""fn value_field(
    name: &str,
    data_type: DataType,
    kind: &str,
    mut metadata: HashMap<String, String>,
) -> Field {
    metadata.insert("metric_type".to_string(), kind.to_string());
    Field::new(name, data_type, true).with_metadata(metadata)
}

pub struct ParquetWriter<W: Write + Send> {
"""))
ok('n17-hist-cols', 'C17',
   (PAR, sec(PAR, "            match options.histogram_type {\n                ParquetHistogramType::Standard => {\n                    // merge", "            // initialize storage for the histogram values\n"),
"""            let (kind, suffixes): (&str, &[&str]) = match options.histogram_type {
                ParquetHistogramType::Standard => ("histogram", &["buckets"]),
                ParquetHistogramType::Sparse => {
                    ("sparse_histogram", &["bucket_indices", "bucket_counts"])
                }
            };
            metadata.insert("metric_type".to_string(), kind.to_string());
            for suffix in suffixes {
                fields.push(
                    Field::new(
                        format!("{histogram}:{suffix}"),
                        DataType::new_list(DataType::UInt64, true),
                        true,
                    )
                    .with_metadata(metadata.clone()),
                );
            }

"""))
ok('n17-time-fields', 'C17',
   (PAR, sec(PAR, "        fields.push(\n            Field::new(\"timestamp\"", "        let mut counters = Vec::with_capacity"),
"""        let nanoseconds = |name: &str, nullable: bool| {
            Field::new(name, DataType::UInt64, nullable).with_metadata(HashMap::from([
                ("metric_type".to_owned(), name.to_owned()),
                ("unit".to_owned(), "nanoseconds".to_owned()),
            ]))
        };
        fields.push(nanoseconds("timestamp", false));
        fields.push(nanoseconds("duration", true));

"""))
ok('n17-loop-time', 'C17',
   (PAR, sec(PAR, "        fields.push(\n            Field::new(\"timestamp\"", "        let mut counters = Vec::with_capacity"),
"""        for (name, nullable) in [("timestamp", false), ("duration", true)] {
            let metadata = HashMap::from([
                ("metric_type".to_owned(), name.to_owned()),
                ("unit".to_owned(), "nanoseconds".to_owned()),
            ]);
            fields.push(Field::new(name, DataType::UInt64, nullable).with_metadata(metadata));
        }

"""))
ok('n19-two-steps', 'C19',
   (PAR, sec(PAR, "        let schema_metadata: Option<Vec<KeyValue>> =", "        let schema = Arc::new(Schema::new(fields));"),
"""        let pairs: Vec<KeyValue> = self
            .metadata
            .into_iter()
            .map(|(key, value)| KeyValue::new(key, value))
            .collect();
        let schema_metadata = if pairs.is_empty() { None } else { Some(pairs) };

"""))
ok('n19-then-some', 'C19',
   (PAR, sec(PAR, "        let schema_metadata: Option<Vec<KeyValue>> =", "        let schema = Arc::new(Schema::new(fields));"),
"""        let schema_metadata = (!self.metadata.is_empty()).then(|| {
            self.metadata
                .into_iter()
                .map(|(key, value)| KeyValue {
                    key,
                    value: Some(value),
                })
                .collect::<Vec<_>>()
        });

"""))
ok('n19-metadata-iflet', 'C19',
   (PAR, "        self.metadata.extend(metadata.unwrap_or_default());\n",
         "        let mut merged = std::mem::take(&mut self.metadata);\n        if let Some(extra) = metadata {\n            merged.extend(extra);\n        }\n        self.metadata = merged;\n"))
# ---- registry
ok('n02-free-fns', 'C02',
   (DYN, sec(DYN, "    fn key_for(entry", "    fn register(&mut self"), "    fn address(metric: *const dyn Metric) -> usize {\n        metric.cast::<()>() as usize\n    }\n\n"),
   (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);\n", "        let key = Self::address(entry.metric());\n        let _previous = self.metrics.insert(key, entry);\n"),
   (DYN, "        let key = metric as *const () as usize;\n        self.metrics.remove(&key);\n", "        self.metrics.remove(&Self::address(metric));\n"))
ok('n02-newtype', 'C02',
   (DYN, "    metrics: BTreeMap<usize, MetricEntry>,\n}\n\nimpl", "    metrics: Table,\n}\n\ntype Table = BTreeMap<usize, MetricEntry>;\n\nimpl"),
   (DYN, "    pub(crate) fn metrics(&self) -> &BTreeMap<usize, MetricEntry> {", "    pub(crate) fn metrics(&self) -> &Table {"))
ok('n02-build-explicit', 'C02',
   (DYN, "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        this.register(entry);\n        this\n", "        let metric = Box::pin(metric);\n        metric.as_ref().register(entry);\n        Self { metric }\n"))
ok('n02-pin-new', 'C02', (DYN, "        let metric = Box::pin(metric);\n", "        let metric = Pin::from(Box::new(metric));\n"))
ok('n01-drop-ptr', 'C01', (DYN, "        unregister(&self.metric);\n", "        let metric: *const dyn Metric = &self.metric;\n        unregister(metric);\n"))
ok('n01-take-then-drop', 'C01', (DYN, "    REGISTRY.write().unregister(metric);\n", "    let mut registry = REGISTRY.write();\n    registry.unregister(metric);\n    drop(registry);\n"))
ok('n02-reg-var', 'C02', (DYN, "        entry.metric = &self.metric;\n\n", "        let this = self.get_ref();\n        entry.metric = &this.metric as &dyn Metric;\n\n"))
# ---- snapshotter
ok('n14-item-fn', 'C14',
   (SNR, sec(SNR, "                Some(Value::Counter(value)) => {", "                Some(Value::Gauge(value)) => {"),
"""                Some(Value::Counter(value)) => {
                    let (name, metadata) = identity(metric);
                    counters.push(Counter {
                        name,
                        value,
                        metadata,
                    });
                }
"""),
   (SNR, "impl Snapshotter {\n", """fn identity(metric: &MetricEntry) -> (String, HashMap<String, String>) {
    let mut metadata = HashMap::new();
    for (key, value) in metric.metadata() {
        metadata.insert(key.to_owned(), value.to_owned());
    }
    if let Some(description) = metric.description() {
        metadata.insert("description".to_owned(), description.to_owned());
    }
    (metric.formatted(metriken::Format::Simple), metadata)
}

impl Snapshotter {
"""))
ok('n14-filter-method', 'C14', (SNR, "        for metric in &metriken::metrics() {\n            if !(self.filter)(metric) {\n                continue;\n            }\n", "        let listing = metriken::metrics();\n        for metric in listing.iter().filter(|metric| (self.filter)(metric)) {\n"))
ok('n11-let', 'C11', (CTR, "self.0.fetch_add(value, Ordering::Relaxed)", "{\n            let cell = &self.0;\n            cell.fetch_add(value, Ordering::AcqRel)\n        }"))
# ---- canonical names
ok('n16-seg-iter', 'C16',
   (SNP, sec(SNP, "    let mut unique_name = name.to_string();\n", "impl Snapshot {"),
"""    let leading = ordered.iter().filter_map(|k| metadata.get(k));
    let rest = metadata
        .iter()
        .filter(|(k, _)| !ignore.contains(*k))
        .map(|(_, v)| v);
    let last = metadata.get("id").into_iter();

    let mut unique_name = name.to_string();
    for segment in leading.chain(rest).chain(last) {
        unique_name.push('/');
        unique_name.push_str(segment);
    }
    unique_name
}

"""))
ok('n16-closure', 'C16',
   (SNP, sec(SNP, "    let mut unique_name = name.to_string();\n", "impl Snapshot {"),
"""    let mut unique_name = name.to_string();
    let mut append = |segment: &str| {
        unique_name.push('/');
        unique_name.push_str(segment);
    };

    for k in ordered {
        if let Some(v) = metadata.get(k) {
            append(v);
        }
    }
    for (k, v) in metadata.iter().filter(|(k, _)| !ignore.contains(*k)) {
        let _ = k;
        append(v);
    }
    if let Some(v) = metadata.get("id") {
        append(v);
    }

    unique_name
}

"""))
ok('n16-retain', 'C16',
   (SNP, "    for (k, v) in &metadata {\n        if ignore.contains(*k) {\n            continue;\n        }\n        unique_name = unique_name + \"/\" + v;\n    }\n",
         "    let mut rest = metadata.clone();\n    rest.retain(|k, _| !ignore.contains(*k));\n    for v in rest.values() {\n        unique_name = unique_name + \"/\" + v;\n    }\n"))
# ---- bugs
bug('n18-hist-swap', 'C18',
   (PAR, "                        columns.push(Self::listu64_entry_from_vec(sparse.index));\n                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));\n",
         "                        let indices = sparse.index.iter().map(|i| *i as u64).collect::<Vec<_>>();\n                        columns.push(Self::listu64_entry_from_slice(&sparse.count));\n                        columns.push(Self::listu64_entry_from_slice(&indices));\n"))
bug('n18-empty-null', 'C18', (PAR, "            if let Some(hist) = histogram {\n", "            if let Some(hist) = histogram.filter(|h| h.as_slice().iter().any(|c| *c > 0)) {\n"))
bug('n18-u32', 'C18', (PAR, "                .map(|x| Some(x as u64))", "                .map(|x| Some(x as u32 as u64))"))
bug('n18-zero-null', 'C18', (PAR, "            v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>(),", "            v.iter()\n                .map(|x| Some(*x).filter(|x| *x != 0))\n                .collect::<Vec<Option<u64>>>(),"))
bug('n17-shadow', 'C17', (PAR, "            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n", "            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            if self.counters.contains_key(&name) {\n                continue;\n            }\n"))
bug('n19-first-only', 'C19', (PAR, "        if self.metadata.is_empty() && !snap_metadata.is_empty() {\n", "        if self.rows == 0 && !snap_metadata.is_empty() {\n"))
bug('n19-override', 'C19', (PAR, "        self.metadata.extend(metadata.unwrap_or_default());\n", "        for (k, v) in metadata.unwrap_or_default() {\n            self.metadata.entry(k).or_insert(v);\n        }\n"))
bug('n19-retain', 'C19', (PAR, "        self.metadata.extend(metadata.unwrap_or_default());\n", "        self.metadata.extend(metadata.unwrap_or_default());\n        self.metadata.retain(|_, v| !v.is_empty());\n"))
bug('n02-box-late', 'C02', (DYN, "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        this.register(entry);\n        this\n", "        let metric = Box::pin(metric);\n        if metric.is_enabled() {\n            metric.as_ref().register(entry);\n        }\n        Self { metric }\n"))
bug('n02-key-shift', 'C02', (DYN, "        entry.metric() as *const dyn Metric as *const () as usize\n", "        (entry.metric() as *const dyn Metric as *const () as usize) >> 4\n"), (DYN, "        let key = metric as *const () as usize;\n", "        let key = (metric as *const () as usize) >> 4;\n"))
bug('n01-try-write', 'C01', (DYN, "    REGISTRY.write().unregister(metric);\n", "    if let Some(mut registry) = REGISTRY.try_write() {\n        registry.unregister(metric);\n    } else {\n        REGISTRY.write().unregister(std::ptr::null::<NullMetric>());\n    }\n"))
bug('n14-desc-first', 'C14', (SNR, "                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        gauge\n", "                    if let Some(description) = metric\n                        .description()\n                        .filter(|v| !v.is_empty())\n                        .map(|v| v.to_string())\n                    {\n                        gauge\n"))
bug('n14-desc-keep', 'C14', (SNR, "                        counter\n                            .metadata\n                            .insert(\"description\".to_string(), description);\n", "                        counter\n                            .metadata\n                            .entry(\"description\".to_string())\n                            .or_insert(description);\n"))
bug('n16-trim', 'C16', (SNP, "        .map(|(k, v)| (k.as_str(), v.as_str()))\n", "        .map(|(k, v)| (k.trim(), v.as_str()))\n"))
bug('n16-dedup', 'C16', (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        if !unique_name.ends_with(v) {\n            unique_name = unique_name + \"/\" + v;\n        }\n    }\n\n    // Append \"id\""))
ok('n15-swap', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.gauges),", "            Snapshot::V2(s) => s.gauges.split_off(0),"))
