from variants import *
from variants2 import *
from variants4 import sec
# ---------------------------------------------------------------- C14
META3 = """metadata: HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter()
                                .map(|(k, v)| (k.to_string(), v.to_string())),
                        ),"""
D1 = "                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        counter\n                            .metadata\n                            .insert(\"description\".to_string(), description);\n                    }\n\n"
D2 = D1.replace('counter', 'gauge')
def labels(body): return "\n/// Collects the metadata of a metric together with its description.\nfn labels(metric: &MetricEntry) -> HashMap<String, String> {\n" + body + "}\n"
LOOP = "    let mut metadata = HashMap::new();\n    for (key, value) in metric.metadata() {\n        metadata.insert(key.to_owned(), value.to_owned());\n    }\n    if let Some(description) = metric.description() {\n        metadata.insert(String::from(\"description\"), description.to_string());\n    }\n    metadata\n"
ok('z14-labels', 'C14', (SNR, "                        " + META3 + "\n                    };\n\n" + D1, "                        metadata: labels(metric),\n                    };\n\n"), (SNR, "                    let mut counter = Counter {", "                    let counter = Counter {"), (SNR, "impl Snapshotter {\n", labels(LOOP).lstrip() + "\nimpl Snapshotter {\n"))
ok('z14-labels-all', 'C14', (SNR, "                        " + META3 + "\n                    };\n\n" + D1, "                        metadata: labels(metric),\n                    };\n\n"), (SNR, "                    let mut counter = Counter {", "                    let counter = Counter {"), (SNR, "                        " + META3 + "\n                    };\n\n" + D2, "                        metadata: labels(metric),\n                    };\n\n"), (SNR, "                    let mut gauge = Gauge {", "                    let gauge = Gauge {"),
   (SNR, "impl Snapshotter {\n", labels("    let description = metric\n        .description()\n        .map(|text| (\"description\".to_string(), text.to_string()));\n\n    metric\n        .metadata()\n        .iter()\n        .map(|(k, v)| (k.to_string(), v.to_string()))\n        .chain(description)\n        .collect()\n").lstrip() + "\nimpl Snapshotter {\n"))
bug('z14-labels', 'C14', (SNR, "                        " + META3 + "\n                    };\n\n" + D1, "                        metadata: labels(metric),\n                    };\n\n"), (SNR, "                    let mut counter = Counter {", "                    let counter = Counter {"), (SNR, "impl Snapshotter {\n", labels(LOOP.replace("metadata.insert(key.to_owned(), value.to_owned());", "if key != \"description\" {\n            metadata.insert(key.to_owned(), value.to_owned());\n        }")).lstrip() + "\nimpl Snapshotter {\n"))
bug('z14-labels-or', 'C14', (SNR, "                        " + META3 + "\n                    };\n\n" + D1, "                        metadata: labels(metric),\n                    };\n\n"), (SNR, "                    let mut counter = Counter {", "                    let counter = Counter {"), (SNR, "impl Snapshotter {\n", labels(LOOP.replace("metadata.insert(String::from(\"description\"), description.to_string());", "metadata\n            .entry(String::from(\"description\"))\n            .or_insert_with(|| description.to_string());")).lstrip() + "\nimpl Snapshotter {\n"))
ok('z14-hist-fn', 'C14', (SNR, sec(SNR, "                    let histogram = if let Some(histogram) = other.downcast_ref::<AtomicHistogram>()\n", "                        None\n                    };\n"), "                    let histogram = load_histogram(other);\n"), (SNR, "impl Snapshotter {\n", "fn load_histogram(metric: &dyn std::any::Any) -> Option<metriken::histogram::Histogram> {\n    if let Some(histogram) = metric.downcast_ref::<AtomicHistogram>() {\n        return histogram.load();\n    }\n\n    metric\n        .downcast_ref::<RwLockHistogram>()\n        .and_then(|histogram| histogram.load())\n}\n\nimpl Snapshotter {\n"))
ok('z14-letelse', 'C14', (SNR, "                    if let Some(histogram) = histogram {\n                        let mut metadata", "                    if let Some(histogram) = histogram {\n                        let config = histogram.config();\n                        let mut metadata"), (SNR, "histogram.config().grouping_power().to_string()", "config.grouping_power().to_string()"), (SNR, "histogram.config().max_value_power().to_string()", "config.max_value_power().to_string()"))
ok('z14-name-first', 'C14', (SNR, "            match metric.value() {\n                Some(Value::Counter(value)) => {\n                    let mut counter = Counter {\n                        name: metric.formatted(metriken::Format::Simple),", "            let name = || metric.formatted(metriken::Format::Simple);\n\n            match metric.value() {\n                Some(Value::Counter(value)) => {\n                    let mut counter = Counter {\n                        name: name(),"))
ok('z14-filter-let', 'C14', (SNR, "            if !(self.filter)(metric) {\n                continue;\n            }\n\n            match metric.value() {", "            let accepted = (self.filter)(metric);\n            if !accepted {\n                continue;\n            }\n\n            let value = metric.value();\n            match value {"))
ok('z14-builder-new', 'C14', (SNR, "    pub fn new() -> Self {\n        Self::default()\n    }", "    pub fn new() -> Self {\n        Self {\n            snapshotter: Snapshotter::default(),\n        }\n    }"), (SNR, "            filter: |_| true,\n", "            filter: accept_all,\n"), (SNR, "impl Default for Snapshotter {", "fn accept_all(_: &MetricEntry) -> bool {\n    true\n}\n\nimpl Default for Snapshotter {"))
bug('z14-filter-name', 'C14', (SNR, "            if !(self.filter)(metric) {\n                continue;\n            }\n", "            if metric.name().is_empty() || !(self.filter)(metric) {\n                continue;\n            }\n"))
bug('z14-dedupe', 'C14', (SNR, "                    counters.push(counter);\n", "                    if counters.last().map_or(true, |last| last.name != counter.name) {\n                        counters.push(counter);\n                    }\n"))
bug('z14-zero', 'C14', (SNR, "                Some(Value::Gauge(value)) => {\n", "                Some(Value::Gauge(i64::MIN)) => continue,\n                Some(Value::Gauge(value)) => {\n"))
bug('z14-hist-empty', 'C14', (SNR, "                    if let Some(histogram) = histogram {\n", "                    if let Some(histogram) = histogram.filter(|h| h.as_slice().iter().any(|c| *c > 0)) {\n"))
bug('z14-prom', 'C14', (SNR, "                        let histogram = Histogram {\n                            name: metric.formatted(metriken::Format::Simple),", "                        let histogram = Histogram {\n                            name: metric.formatted(metriken::Format::Prometheus),"))
bug('z14-conf-swap', 'C14', (SNR, "histogram.config().grouping_power().to_string()", "histogram.config().max_value_power().to_string()"), (SNR, "                            \"max_value_power\".to_string(),\n                            histogram.config().max_value_power().to_string(),", "                            \"max_value_power\".to_string(),\n                            histogram.config().grouping_power().to_string(),"))
# ---------------------------------------------------------------- C15
ok('z15-macro', 'C15', (SNP, sec(SNP, "    pub fn counters(&mut self) -> Vec<Counter> {\n", "    pub fn histograms(&mut self) -> Vec<Histogram> {\n        match self {\n            Snapshot::V1(s) => std::mem::take(&mut s.histograms),\n            Snapshot::V2(s) => std::mem::take(&mut s.histograms),\n        }\n    }\n"), "    take_field!(counters, Vec<Counter>);\n    take_field!(gauges, Vec<Gauge>);\n    take_field!(histograms, Vec<Histogram>);\n"), (SNP, "impl Snapshot {\n    pub fn systemtime", "macro_rules! take_field {\n    ($field:ident, $ty:ty) => {\n        pub fn $field(&mut self) -> $ty {\n            match self {\n                Snapshot::V1(s) => std::mem::take(&mut s.$field),\n                Snapshot::V2(s) => std::mem::take(&mut s.$field),\n            }\n        }\n    };\n}\n\nimpl Snapshot {\n    pub fn systemtime"))
ok('z15-parts', 'C15', (SNP, "    pub fn gauges(&mut self) -> Vec<Gauge> {\n        match self {\n            Snapshot::V1(s) => std::mem::take(&mut s.gauges),\n            Snapshot::V2(s) => std::mem::take(&mut s.gauges),\n        }\n    }", "    pub fn gauges(&mut self) -> Vec<Gauge> {\n        std::mem::take(self.gauges_mut())\n    }\n\n    fn gauges_mut(&mut self) -> &mut Vec<Gauge> {\n        match self {\n            Snapshot::V1(SnapshotV1 { gauges, .. }) => gauges,\n            Snapshot::V2(SnapshotV2 { gauges, .. }) => gauges,\n        }\n    }"))
ok('z15-use-self', 'C15', (SNP, "        match self {\n            Snapshot::V1(_) => None,\n            Snapshot::V2(s) => Some(s.duration),\n        }", "        if let Self::V2(SnapshotV2 { duration, .. }) = self {\n            Some(*duration)\n        } else {\n            None\n        }"), (SNP, "        match self {\n            Snapshot::V1(s) => s.systemtime,\n            Snapshot::V2(s) => s.systemtime,\n        }", "        *match self {\n            Self::V1(s) => &s.systemtime,\n            Self::V2(s) => &s.systemtime,\n        }"))
bug('z15-dur-zero', 'C15', (SNP, "            Snapshot::V2(s) => Some(s.duration),", "            Snapshot::V2(s) => Some(s.duration).filter(|d| !d.is_zero()),"))
bug('z15-skip-empty', 'C15', (SNP, "pub struct SnapshotV2 {\n    pub systemtime: SystemTime,\n    pub duration: Duration,\n", "pub struct SnapshotV2 {\n    pub systemtime: SystemTime,\n    #[cfg_attr(feature = \"serde\", serde(skip_serializing_if = \"Duration::is_zero\", default))]\n    pub duration: Duration,\n"))
bug('z15-alias', 'C15', (SNP, "pub struct Gauge {\n    pub name: String,\n    pub value: i64,\n    pub metadata: HashMap<String, String>,", "pub struct Gauge {\n    pub name: String,\n    pub value: i64,\n    #[cfg_attr(feature = \"serde\", serde(skip_deserializing))]\n    pub metadata: HashMap<String, String>,"))
bug('z15-conditional-take', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.metadata),", "            Snapshot::V2(s) if s.metadata.len() > 1 => std::mem::take(&mut s.metadata),\n            Snapshot::V2(s) => s.metadata.clone(),"))
# ---------------------------------------------------------------- C16
CN = sec(SNP, "    let metadata: BTreeMap<&str, &str> = metadata\n", "    unique_name\n}")
ok('z16-parts-join', 'C16', (SNP, CN, """    let ordered = ["name", "op", "state", "direction"];
    let ignored = ["metric", "unit", "grouping_power", "max_value_power", "id"];

    let sorted: BTreeMap<&String, &String> = metadata.iter().collect();

    let mut parts: Vec<&str> = vec![name.as_str()];
    parts.extend(ordered.iter().filter_map(|k| metadata.get(*k)).map(String::as_str));
    parts.extend(
        sorted
            .iter()
            .filter(|(k, _)| !ordered.contains(&k.as_str()) && !ignored.contains(&k.as_str()))
            .map(|(_, v)| v.as_str()),
    );
    parts.extend(metadata.get("id").map(String::as_str));

    parts.join("/")
}"""), (SNP, "use std::collections::{BTreeMap, HashMap, HashSet};", "use std::collections::{BTreeMap, HashMap};"))
ok('z16-append-fn', 'C16', (SNP, "            unique_name = unique_name + \"/\" + *v;", "            append(&mut unique_name, v);"), (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        append(&mut unique_name, v);\n    }\n\n    // Append \"id\""), (SNP, "    if let Some(v) = metadata.get(\"id\") {\n        unique_name = unique_name + \"/\" + v;\n    }", "    if let Some(v) = metadata.get(\"id\") {\n        append(&mut unique_name, v);\n    }"), (SNP, "/// Return the metric name: for Rezolus", "fn append(name: &mut String, part: &str) {\n    name.push('/');\n    name.push_str(part);\n}\n\n/// Return the metric name: for Rezolus"))
ok('z16-let-match', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {\n        return snapshot_name.to_string();\n    };\n", "    let name = match metadata.get(\"metric\") {\n        Some(name) => name,\n        None => return snapshot_name.to_owned(),\n    };\n"))
bug('z16-early-id', 'C16', (SNP, "    if let Some(v) = metadata.get(\"id\") {\n        unique_name", "    if let Some(v) = metadata.get(\"id\").filter(|v| **v != \"0\") {\n        unique_name"))
bug('z16-starts', 'C16', (SNP, "        if ignore.contains(*k) {\n            continue;\n        }", "        if ignore.contains(*k) || k.starts_with(\"__\") {\n            continue;\n        }"))
bug('z16-empty-metric', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {", "    let Some(name) = metadata.get(\"metric\").filter(|name| !name.is_empty()) else {"))
bug('z16-dedup-parts', 'C16', (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        if !unique_name.ends_with(v) {\n            unique_name = unique_name + \"/\" + v;\n        }\n    }\n\n    // Append \"id\""))
# ---------------------------------------------------------------- C17
ok('z17-add-fn', 'C17', (PAR, sec(PAR, "        for counter in counters {\n            let name", "        for histogram in histograms {\n            let name = canonicalize_metric_name(&histogram.name, &histogram.metadata);\n            self.histograms.entry(name).or_insert(histogram.metadata);\n        }\n"), """        for counter in counters {
            record(&mut self.counters, &counter.name, counter.metadata);
        }

        for gauge in gauges {
            record(&mut self.gauges, &gauge.name, gauge.metadata);
        }

        for histogram in histograms {
            record(&mut self.histograms, &histogram.name, histogram.metadata);
        }
"""), (PAR, "impl ParquetSchema {\n    pub fn new()", "fn record(\n    seen: &mut BTreeMap<String, HashMap<String, String>>,\n    name: &str,\n    metadata: HashMap<String, String>,\n) {\n    let name = canonicalize_metric_name(name, &metadata);\n    seen.entry(name).or_insert(metadata);\n}\n\nimpl ParquetSchema {\n    pub fn new()"))
ok('z17-direct', 'C17', (PAR, "        let (counters, gauges, histograms) = (\n            snapshot.counters(),\n            snapshot.gauges(),\n            snapshot.histograms(),\n        );\n\n        for counter in counters {", "        for counter in snapshot.counters() {"), (PAR, "        for gauge in gauges {\n            let name", "        for gauge in snapshot.gauges() {\n            let name"), (PAR, "        for histogram in histograms {\n            let name", "        for histogram in snapshot.histograms() {\n            let name"))
ok('z17-scalar-fn', 'C17', (PAR, "            // merge metric annotations into the metric metadata\n            metadata.insert(\"metric_type\".to_string(), \"counter\".to_string());\n\n            // add column to schema\n            fields\n                .push(Field::new(counter.clone(), DataType::UInt64, true).with_metadata(metadata));\n", "            metadata.insert(\"metric_type\".to_string(), \"counter\".to_string());\n            fields.push(nullable(&counter, DataType::UInt64, metadata));\n"), (PAR, "            // merge metric annotations into the metric metadata\n            metadata.insert(\"metric_type\".to_string(), \"gauge\".to_string());\n\n            // add column to schema\n            fields.push(Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata));\n", "            metadata.insert(\"metric_type\".to_string(), \"gauge\".to_string());\n            fields.push(nullable(&gauge, DataType::Int64, metadata));\n"), (PAR, "impl ParquetSchema {\n    pub fn new()", "fn nullable(name: &str, ty: DataType, metadata: HashMap<String, String>) -> Field {\n    Field::new(name, ty, true).with_metadata(metadata)\n}\n\nimpl ParquetSchema {\n    pub fn new()"))
ok('z17-default', 'C17', (PAR, "        ParquetSchema {\n            counters: BTreeMap::new(),\n            gauges: BTreeMap::new(),\n            histograms: BTreeMap::new(),\n            metadata: HashMap::new(),\n            rows: 0,\n        }", "        Self::default()"))
ok('z17-hist-suffix', 'C17', (PAR, sec(PAR, "            match options.histogram_type {\n                ParquetHistogramType::Standard => {\n                    // merge", "            // initialize storage for the histogram values\n"), """            let (kind, suffixes): (&str, &[&str]) = match options.histogram_type {
                ParquetHistogramType::Standard => ("histogram", &["buckets"]),
                ParquetHistogramType::Sparse => {
                    ("sparse_histogram", &["bucket_indices", "bucket_counts"])
                }
            };
            metadata.insert("metric_type".to_string(), kind.to_string());

            for suffix in suffixes {
                fields.push(
                    Field::new(
                        format!("{histogram}:{suffix}"),
                        DataType::new_list(DataType::UInt64, true),
                        true,
                    )
                    .with_metadata(metadata.clone()),
                );
            }

            // initialize storage for the histogram values
"""))
ok('z17-list-var', 'C17', (PAR, "        for (histogram, mut metadata) in self.histograms.into_iter() {\n            match options", "        let buckets = DataType::new_list(DataType::UInt64, true);\n        for (histogram, mut metadata) in self.histograms.into_iter() {\n            match options"), (PAR, "format!(\"{histogram}:buckets\"),\n                            DataType::new_list(DataType::UInt64, true),", "format!(\"{histogram}:buckets\"),\n                            buckets.clone(),"))
bug('z17-kind-entry', 'C17', (PAR, "            metadata.insert(\"metric_type\".to_string(), \"gauge\".to_string());", "            metadata.entry(\"metric_type\".to_string()).or_insert_with(|| \"gauge\".to_string());"))
bug('z17-skip-dup', 'C17', (PAR, "        for gauge in gauges {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n", "        for gauge in gauges {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            if self.counters.contains_key(&name) {\n                continue;\n            }\n"))
bug('z17-trim', 'C17', (PAR, "            let name = canonicalize_metric_name(&histogram.name, &histogram.metadata);\n            self.histograms", "            let name = canonicalize_metric_name(histogram.name.trim_end_matches(\":buckets\"), &histogram.metadata);\n            self.histograms"))
bug('z17-first-only', 'C17', (PAR, "        for counter in counters {\n            let name = canonicalize_metric_name(&counter.name, &counter.metadata);\n            self.counters.entry(name).or_insert(counter.metadata);\n        }\n", "        if self.rows == 0 || counters.len() > self.counters.len() {\n            for counter in counters {\n                let name = canonicalize_metric_name(&counter.name, &counter.metadata);\n                self.counters.entry(name).or_insert(counter.metadata);\n            }\n        }\n"))
bug('z17-rev', 'C17', (PAR, "        for (gauge, mut metadata) in self.gauges.into_iter() {", "        for (gauge, mut metadata) in self.gauges.into_iter().rev() {"), (PAR, "            // initialize storage for the gauge values\n            gauges.push(gauge);\n        }\n", "            // initialize storage for the gauge values\n            gauges.push(gauge);\n        }\n        gauges.sort();\n"))
# ---------------------------------------------------------------- C18
ok('z18-u64-fn', 'C18', (PAR, "            columns.push(Arc::new(UInt64Array::from(vec![hs\n                .counters\n                .remove(counter)\n                .map(|v| v.value)])));", "            let value = hs.counters.remove(counter).map(|v| v.value);\n            columns.push(Self::u64_entry(value));"), (PAR, "        columns.push(Arc::new(UInt64Array::from(vec![hs.duration])));", "        columns.push(Self::u64_entry(hs.duration));"), (PAR, "    /// Create a list entry for an arrow lists of u64s from a slice.", "    fn u64_entry(value: Option<u64>) -> Arc<dyn Array> {\n        Arc::new(UInt64Array::from(vec![value]))\n    }\n\n    /// Create a list entry for an arrow lists of u64s from a slice."))
ok('z18-iter', 'C18', (PAR, "        for gauge in self.gauges.iter_mut() {", "        for gauge in &self.gauges {"), (PAR, "        for counter in self.counters.iter_mut() {", "        for counter in self.counters.iter() {"))
ok('z18-match-pair', 'C18', (PAR, sec(PAR, "            if let Some(hist) = histogram {\n", "                };\n            }\n        }\n"), """            match (histogram, self.options.histogram_type) {
                (Some(hist), ParquetHistogramType::Standard) => {
                    columns.push(Self::listu64_entry_from_slice(hist.as_slice()));
                }
                (Some(hist), ParquetHistogramType::Sparse) => {
                    let sparse = histogram::SparseHistogram::from(&hist);
                    columns.push(Self::listu64_entry_from_vec(sparse.index));
                    columns.push(Self::listu64_entry_from_slice(&sparse.count));
                }
                (None, ParquetHistogramType::Standard) => {
                    columns.push(Self::listu64_entry_null());
                }
                (None, ParquetHistogramType::Sparse) => {
                    columns.push(Self::listu64_entry_null());
                    columns.push(Self::listu64_entry_null());
                }
            }
        }
"""))
ok('z18-hist-fn', 'C18', (PAR, sec(PAR, "            if let Some(hist) = histogram {\n", "                };\n            }\n        }\n"), """            self.push_histogram(&mut columns, histogram);
        }
""".replace('self.push_histogram', 'Self::push_histogram(self.options.histogram_type,').replace('(&mut columns, histogram)', ' &mut columns, histogram)')), (PAR, "    /// Finish writing any buffered metrics and the parquet footer.", """    fn push_histogram(
        kind: ParquetHistogramType,
        columns: &mut Vec<Arc<dyn Array>>,
        histogram: Option<histogram::Histogram>,
    ) {
        match kind {
            ParquetHistogramType::Standard => columns.push(match histogram {
                Some(hist) => Self::listu64_entry_from_slice(hist.as_slice()),
                None => Self::listu64_entry_null(),
            }),
            ParquetHistogramType::Sparse => {
                if let Some(hist) = histogram {
                    let sparse = histogram::SparseHistogram::from(&hist);
                    columns.push(Self::listu64_entry_from_vec(sparse.index));
                    columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
                } else {
                    columns.push(Self::listu64_entry_null());
                    columns.push(Self::listu64_entry_null());
                }
            }
        }
    }

    /// Finish writing any buffered metrics and the parquet footer."""))
ok('z18-hashed-fn', 'C18', (SNP, "        let counters: HashMap<String, Counter> = HashMap::from_iter(\n            snapshot\n                .counters()\n                .into_iter()\n                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),\n        );", "        let counters: HashMap<String, Counter> = snapshot\n            .counters()\n            .into_iter()\n            .map(|v| {\n                let name = canonicalize_metric_name(&v.name, &v.metadata);\n                (name, v)\n            })\n            .collect();"))
ok('z18-nanos', 'C18', (SNP, "        let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);", "        let duration = snapshot.duration().map(nanos);"), (SNP, "            .expect(\"System Clock is earlier than 1970; needs reset\")\n            .as_nanos() as u64;", "            .map(nanos)\n            .expect(\"System Clock is earlier than 1970; needs reset\");"), (SNP, "#[cfg(feature = \"parquet\")]\nimpl From<Snapshot>", "#[cfg(feature = \"parquet\")]\nfn nanos(duration: Duration) -> u64 {\n    duration.as_nanos() as u64\n}\n\n#[cfg(feature = \"parquet\")]\nimpl From<Snapshot>"))
bug('z18-hist-clip', 'C18', (PAR, "            v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>(),", "            v.iter().map(|x| Some((*x).min(u64::from(u32::MAX)))).collect::<Vec<Option<u64>>>(),"))
bug('z18-zero-null-bucket', 'C18', (PAR, "            v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>(),", "            v.iter().map(|x| (*x != 0).then_some(*x)).collect::<Vec<Option<u64>>>(),"))
bug('z18-dur-ms', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64)", "snapshot.duration().map(|x| u64::from(x.subsec_nanos()) + x.as_secs() * 1_000_000)"))
bug('z18-get-trunc', 'C18', (PAR, "            let histogram = hs.histograms.remove(h).map(|v| v.value);", "            let histogram = hs.histograms.remove(h).map(|v| v.value).filter(|v| v.as_slice().iter().any(|c| *c != 0));"))
bug('z18-gauge-abs', 'C18', (PAR, "                .gauges\n                .remove(gauge)\n                .map(|v| v.value)])));", "                .gauges\n                .remove(gauge)\n                .map(|v| v.value.wrapping_abs())])));"))
bug('z18-hashed-skip', 'C18', (SNP, "            snapshot\n                .gauges()\n                .into_iter()\n", "            snapshot\n                .gauges()\n                .into_iter()\n                .filter(|v| v.value != i64::MAX)\n"))
bug('z18-empty-row', 'C18', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;", "        if columns[2..].iter().all(|column| column.null_count() == column.len()) && columns.len() > 2 {\n            return Ok(());\n        }\n        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;"))
# ---------------------------------------------------------------- C19
ok('z19-read-fn', 'C19', (CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);", "            schema.push(read_snapshot(&mut reader)?);"), (CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            writer.push(s)?;", "            writer.push(read_snapshot(&mut reader)?)?;"), (CNV, "impl MsgpackToParquet {", "fn read_snapshot(reader: &mut impl Read) -> Result<Snapshot, ParquetError> {\n    match rmp_serde::from_read(reader) {\n        Ok(snapshot) => Ok(snapshot),\n        Err(error) => Err(ParquetError::External(Box::new(error))),\n    }\n}\n\nimpl MsgpackToParquet {"))
ok('z19-passes', 'C19', (CNV, sec(CNV, "        let mut schema = ParquetSchema::new();\n", "        Ok(metadata.num_rows)\n"), """        let start = reader.stream_position()?;

        // First pass to build the schema
        let mut schema = ParquetSchema::new();
        for_each_snapshot(&mut reader, |snapshot| {
            schema.push(snapshot);
            Ok(())
        })?;

        // Second pass to write the rows
        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;
        reader.seek(SeekFrom::Start(start))?;
        for_each_snapshot(&mut reader, |snapshot| writer.push(snapshot))?;

        writer.finalize().map(|metadata| metadata.num_rows)
"""), (CNV, "impl MsgpackToParquet {", """fn for_each_snapshot<R: BufRead>(
    reader: &mut R,
    mut f: impl FnMut(Snapshot) -> Result<(), ParquetError>,
) -> Result<(), ParquetError> {
    while !reader.fill_buf()?.is_empty() {
        let snapshot = rmp_serde::from_read(&mut *reader)
            .map_err(|error| ParquetError::External(Box::new(error)))?;
        f(snapshot)?;
    }

    Ok(())
}

impl MsgpackToParquet {"""))
ok('z19-next-fn', 'C19', (CNV, "        while !reader.fill_buf()?.is_empty() {\n            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);", "        while let Some(s) = next_snapshot(&mut reader)? {\n            schema.push(s);"), (CNV, "        while !reader.fill_buf()?.is_empty() {\n            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            writer.push(s)?;", "        while let Some(s) = next_snapshot(&mut reader)? {\n            writer.push(s)?;"), (CNV, "impl MsgpackToParquet {", "fn next_snapshot(reader: &mut impl BufRead) -> Result<Option<Snapshot>, ParquetError> {\n    if reader.fill_buf()?.is_empty() {\n        return Ok(None);\n    }\n\n    rmp_serde::from_read(reader)\n        .map(Some)\n        .map_err(|x| ParquetError::External(Box::new(x)))\n}\n\nimpl MsgpackToParquet {"))
ok('z19-close-let', 'C19', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;\n        self.writer.write(&batch)", "        let schema = Arc::clone(&self.schema);\n        let batch = RecordBatch::try_new(schema, columns).map_err(ParquetError::from)?;\n        self.writer.write(&batch)?;\n        Ok(())"))
ok('z19-props-helper', 'C19', (PAR, sec(PAR, "        let props = WriterProperties::builder()\n", "            .build();\n"), "        let mut builder = WriterProperties::builder()\n            .set_compression(options.compression.inner)\n            .set_max_row_group_size(options.max_batch_size);\n        builder = builder.set_key_value_metadata(schema_metadata);\n        let props = builder.build();\n"))
bug('z19-eof', 'C19', (CNV, "        // Move back to where we started", "        // Nothing to convert\n        if self.parquet_is_empty() { }\n        // Move back to where we started") if False else (CNV, "            writer.push(s)?;", "            if writer.push(s).is_err() {\n                break;\n            }"))
bug('z19-count-own', 'C19', (CNV, "        let metadata = writer.finalize()?;\n\n        Ok(metadata.num_rows)", "        let metadata = writer.finalize()?;\n\n        Ok(metadata.num_rows.max(1))"))
bug('z19-options-zero', 'C19', (PAR, "            .set_max_row_group_size(options.max_batch_size)", "            .set_max_row_group_size(options.max_batch_size.max(1024))"))
bug('z19-kv-empty', 'C19', (PAR, "                        key,\n                        value: Some(value),", "                        key,\n                        value: Some(value).filter(|v| !v.is_empty()),"))
bug('z19-io-kind', 'C19', (CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);", "            let s: Snapshot = match rmp_serde::from_read(&mut reader) {\n                Ok(s) => s,\n                Err(rmp_serde::decode::Error::InvalidMarkerRead(_)) => break,\n                Err(x) => return Err(ParquetError::External(Box::new(x))),\n            };\n            schema.push(s);"))
# ---------------------------------------------------------------- C20
ok('z20-asptr', 'C20', (WRAP, "        unsafe { &*(metric as *const M as *const Self) }", "        let ptr: *const M = metric;\n        unsafe { &*ptr.cast::<Self>() }"))
ok('z20-metric-ref', 'C20', (LIB, "        unsafe { &*self.metric }\n", "        let metric = self.metric;\n        // SAFETY: the pointer is valid for as long as the entry is reachable.\n        unsafe { &*metric }\n"))
ok('z20-lazy-init', 'C20', (LAZ, "    pub const fn new(func: F) -> Self {\n        Self {\n            cell: OnceCell::new(),\n            func: Cell::new(Some(func)),\n        }", "    pub const fn new(func: F) -> Self {\n        let func = Cell::new(Some(func));\n        Self {\n            func,\n            cell: OnceCell::new(),\n        }"))
bug('z17-hist-suffix', 'C17', (PAR, sec(PAR, "            match options.histogram_type {\n                ParquetHistogramType::Standard => {\n                    // merge", "            // initialize storage for the histogram values\n"), """            let (kind, suffixes): (&str, &[&str]) = match options.histogram_type {
                ParquetHistogramType::Standard => ("histogram", &["buckets"]),
                ParquetHistogramType::Sparse => {
                    ("sparse_histogram", &["bucket_counts", "bucket_indices"])
                }
            };
            metadata.insert("metric_type".to_string(), kind.to_string());

            for suffix in suffixes {
                fields.push(
                    Field::new(
                        format!("{histogram}:{suffix}"),
                        DataType::new_list(DataType::UInt64, true),
                        true,
                    )
                    .with_metadata(metadata.clone()),
                );
            }

            // initialize storage for the histogram values
"""))
ok('z18-null-loop', 'C18', (PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => {\n                        for _ in 0..2 {\n                            columns.push(Self::listu64_entry_null());\n                        }\n                    }"))
bug('z18-null-loop', 'C18', (PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => {\n                        for _ in 0..1 {\n                            columns.push(Self::listu64_entry_null());\n                        }\n                    }"))
ok('z18-null-extend', 'C18', (PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => columns.extend([\n                        Self::listu64_entry_null() as Arc<dyn Array>,\n                        Self::listu64_entry_null() as Arc<dyn Array>,\n                    ]),"))
ok('z18-null-repeat', 'C18', (PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => {\n                        let null = Self::listu64_entry_null();\n                        columns.push(null.clone());\n                        columns.push(null);\n                    }"))
