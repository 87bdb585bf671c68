"""Another round of independent bugs and refactorings."""
from variants import *
from variants4 import sec
bug('v13-try-read', 'C13', (HIS, "        self.inner.get().map(|h| h.read().clone())", "        self.inner.get().and_then(|h| h.try_read().map(|h| h.clone()))"))
bug('v13-zero-skip', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n", "        if data.iter().all(|count| *count == 0) {\n            return Ok(());\n        }\n\n        let mut histogram = self.get_or_init().write();\n"))
bug('v13-add', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = bucket.wrapping_add(*count);\n        }\n"))
bug('v13-max', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = (*bucket).max(*count);\n        }\n"))
bug('v16-desc', 'C16', (SNP, "\"grouping_power\", \"max_value_power\", \"id\"]", "\"grouping_power\", \"max_value_power\", \"id\", \"description\"]"))
bug('v16-break', 'C16', (SNP, "        if let Some(v) = metadata.get(&k) {\n            unique_name = unique_name + \"/\" + *v;\n        }\n", "        let Some(v) = metadata.get(&k) else {\n            break;\n        };\n        unique_name = unique_name + \"/\" + *v;\n"))
bug('v16-unit', 'C16', (SNP, "[\"metric\", \"unit\", ", "[\"metric\", \"units\", "))
bug('v16-value', 'C16', (SNP, "        if ignore.contains(*k) {", "        if ignore.contains(*k) || ignore.contains(*v) {"))
bug('v19-append', 'C19', (CNV, "File::create(output)?", "File::options().write(true).create(true).open(output)?"))
bug('v19-cap0', 'C19', (CNV, "BufReader::new(reader)", "BufReader::with_capacity(0, reader)"))
bug('v19-seek-cur', 'C19', (CNV, "SeekFrom::Start(start)", "SeekFrom::Current(-(start as i64))"))
bug('v19-limit', 'C19', (CNV, "        let mut reader = BufReader::new(reader);\n", "        let mut reader = BufReader::new(reader);\n        let mut left = u16::MAX;\n"), (CNV, "            schema.push(s);\n", "            schema.push(s);\n            left -= 1;\n            if left == 0 {\n                break;\n            }\n"))
bug('v19-count', 'C19', (CNV, "        let metadata = writer.finalize()?;\n\n        Ok(metadata.num_rows)", "        let metadata = writer.finalize()?;\n\n        Ok(metadata.row_groups.first().map_or(0, |group| group.num_rows))"))
bug('v11-neg', 'C11', (GAU, "        self.0.fetch_sub(value, Ordering::Relaxed)", "        self.0.fetch_add(-value, Ordering::Relaxed)"))
ok('v11-wneg', 'C11', (GAU, "        self.0.fetch_sub(value, Ordering::Relaxed)", "        self.0.fetch_add(value.wrapping_neg(), Ordering::Relaxed)"))
bug('v01-into-inner', 'C01', (DYN, "    /// Register this metric in the global list of dynamic metrics with `name`.\n", "    /// Take the metric out again.\n    pub fn into_inner(self) -> M {\n        let this = std::mem::ManuallyDrop::new(self);\n        unsafe { std::ptr::read(&this.metric.metric) }\n    }\n\n    /// Register this metric in the global list of dynamic metrics with `name`.\n"))
bug('v01-box-into', 'C01', (DYN, "impl<M: Metric> Deref for DynPinnedMetric<M> {", "impl<M: Metric> DynBoxedMetric<M> {\n    /// Keep the metric registered forever.\n    pub fn leak(self) {\n        std::mem::forget(self)\n    }\n\n    /// Drop the metric later.\n    pub fn into_raw(self) -> *const M {\n        let p: *const M = &*self;\n        std::mem::forget(self);\n        p\n    }\n}\n\nimpl<M: Metric> Deref for DynPinnedMetric<M> {"))
bug('v14-zero-hist', 'C14', (SNR, "                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        gauge\n", "                    if value == 0 && metric.description().is_none() {\n                        continue;\n                    }\n\n                    if let Some(description) = metric.description().map(|v| v.to_string()) {\n                        gauge\n"))
ok('v05-get-or-insert', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n", "        if let Some(res) = self.0.downcast_mut::<I>() {\n            res.0.get_or_insert_with(fulfil);\n        }\n"))
ok('v05-is-none', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n", "        match self.0.downcast_mut::<I>() {\n            Some(slot) if slot.0.is_none() => slot.0 = Some(fulfil()),\n            _ => {}\n        }\n"))
ok('v16-parts', 'C16', (SNP, sec(SNP, "    let mut unique_name = name.to_string();\n", "    unique_name\n}"), """    let mut parts: Vec<&str> = vec![name.as_str()];
    parts.extend(ordered.iter().filter_map(|k| metadata.get(k).copied()));
    parts.extend(
        metadata
            .iter()
            .filter(|(k, _)| !ignore.contains(*k))
            .map(|(_, v)| *v),
    );
    parts.extend(metadata.get("id").copied());
    parts.join("/")
}"""))
ok('v16-push', 'C16', (SNP, "            unique_name = unique_name + \"/\" + *v;\n", "            unique_name.push('/');\n            unique_name.push_str(v);\n"), (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        unique_name += \"/\";\n        unique_name += v;\n    }\n\n    // Append \"id\""))
ok('v16-helper', 'C16', (SNP, "            unique_name = unique_name + \"/\" + *v;\n", "            append(&mut unique_name, v);\n"), (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        append(&mut unique_name, v);\n    }\n\n    // Append \"id\""), (SNP, "impl Snapshot {\n", "fn append(name: &mut String, part: &str) {\n    name.push('/');\n    name.push_str(part);\n}\n\nimpl Snapshot {\n"))
ok('v19-each', 'C19', (CNV, sec(CNV, "        // First pass to build the schema\n", "        let metadata = writer.finalize()?;\n"), """        // First pass to build the schema
        for_each_snapshot(&mut reader, |s| {
            schema.push(s);
            Ok(())
        })?;
        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;

        // Move back to where we started for the second pass over the actual metrics
        reader.seek(SeekFrom::Start(start))?;
        for_each_snapshot(&mut reader, |s| writer.push(s))?;
        let metadata = writer.finalize()?;
"""), (CNV, "/// A struct for converting msgpack'd", """fn for_each_snapshot(
    reader: &mut impl BufRead,
    mut f: impl FnMut(Snapshot) -> Result<(), ParquetError>,
) -> Result<(), ParquetError> {
    while !reader.fill_buf()?.is_empty() {
        let s: Snapshot = rmp_serde::from_read(&mut *reader)
            .map_err(|x| ParquetError::External(Box::new(x)))?;
        f(s)?;
    }
    Ok(())
}

/// A struct for converting msgpack'd"""))
ok('v19-next', 'C19', (CNV, sec(CNV, "        // First pass to build the schema\n", "        let metadata = writer.finalize()?;\n"), """        // First pass to build the schema
        while let Some(s) = next_snapshot(&mut reader)? {
            schema.push(s);
        }
        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;

        // Move back to where we started for the second pass over the actual metrics
        reader.seek(SeekFrom::Start(start))?;
        while let Some(s) = next_snapshot(&mut reader)? {
            writer.push(s)?;
        }
        let metadata = writer.finalize()?;
"""), (CNV, "/// A struct for converting msgpack'd", """fn next_snapshot(reader: &mut impl BufRead) -> Result<Option<Snapshot>, ParquetError> {
    if reader.fill_buf()?.is_empty() {
        return Ok(None);
    }
    rmp_serde::from_read(reader)
        .map(Some)
        .map_err(|x| ParquetError::External(Box::new(x)))
}

/// A struct for converting msgpack'd"""))
ok('v18-hash-helper', 'C18', (SNP, sec(SNP, "        let counters: HashMap<String, Counter> = HashMap::from_iter(\n", "        Self {\n            ts,\n"), """        let mut counters = HashMap::new();
        for counter in snapshot.counters() {
            counters.insert(
                canonicalize_metric_name(&counter.name, &counter.metadata),
                counter,
            );
        }
        let gauges = by_name(snapshot.gauges(), |v| (&v.name, &v.metadata));
        let histograms = by_name(snapshot.histograms(), |v| (&v.name, &v.metadata));

        Self {
            ts,
"""), (SNP, "#[cfg(feature = \"parquet\")]\nimpl From<Snapshot> for HashedSnapshot {", """#[cfg(feature = "parquet")]
fn by_name<T>(
    readings: Vec<T>,
    key: impl Fn(&T) -> (&String, &HashMap<String, String>),
) -> HashMap<String, T> {
    readings
        .into_iter()
        .map(|reading| {
            let (name, metadata) = key(&reading);
            (canonicalize_metric_name(name, metadata), reading)
        })
        .collect()
}

#[cfg(feature = "parquet")]
impl From<Snapshot> for HashedSnapshot {"""))
ok('v10-fold', 'C10', (FMT, sec(FMT, "            let metadata: Vec<String> = metric\n", "            if metadata.is_empty() {\n"), """            let metadata = metric
                .metadata()
                .iter()
                .map(|(key, value)| [key, "=\\"", &escape_label_value(value), "\\""].concat())
                .collect::<Vec<_>>()
                .join(", ");

            if metadata.is_empty() {
"""))
ok('v10-push', 'C10', (FMT, sec(FMT, "            let metadata: Vec<String> = metric\n", "                format!(\"{}{{{metadata}}}\", metric.name())\n            }\n"), """            let metadata = metric.metadata();
            let mut out = metric.name().to_string();
            if metadata.is_empty() {
                return out;
            }
            out.push('{');
            for (i, (key, value)) in metadata.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                out.push_str(key);
                out.push_str("=\\"");
                out.push_str(&escape_label_value(value));
                out.push('"');
            }
            out.push('}');
            out
"""))
ok('v13-as-mut', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n", "        self.get_or_init()\n            .write()\n            .as_mut_slice()\n            .copy_from_slice(data);\n"))
ok('v13-read-guard', 'C13', (HIS, "        self.inner.get().map(|h| h.read().clone())", "        let inner = self.inner.get()?;\n        let guard = inner.read();\n        Some(Histogram::clone(&guard))"))
ok('v15-macro', 'C15', (SNP, sec(SNP, "    pub fn counters(&mut self)", "    pub fn gauges"), "    pub fn counters(&mut self) -> Vec<Counter> {\n        let counters = match self {\n            Snapshot::V1(s) => &mut s.counters,\n            Snapshot::V2(s) => &mut s.counters,\n        };\n        std::mem::replace(counters, Vec::new())\n    }\n\n    pub fn gauges"))
ok('v15-or', 'C15', (SNP, sec(SNP, "    pub fn gauges(&mut self)", "    pub fn histograms"), "    pub fn gauges(&mut self) -> Vec<Gauge> {\n        let (Snapshot::V1(SnapshotV1 { gauges, .. }) | Snapshot::V2(SnapshotV2 { gauges, .. })) = self;\n        std::mem::take(gauges)\n    }\n\n    pub fn histograms"))
ok('v12-match', 'C12', (LAZ, "        Lazy::get(self).map_or(false, |metric| metric.is_enabled())", "        match self.cell.get() {\n            None => false,\n            Some(metric) => metric.is_enabled(),\n        }"))
ok('v12-force', 'C12', (LAZ, sec(LAZ, "        this.cell.get_or_init(|| {\n", "        })\n"), "        if let Some(value) = this.cell.get() {\n            return value;\n        }\n        this.cell.get_or_init(|| match this.func.take() {\n            Some(func) => func(),\n            None => panic!(\"Lazy instance has previously been poisoned\"),\n        })\n"))
bug('v04-upgradable', 'C04', (MET, "use parking_lot::RwLockReadGuard;", "use parking_lot::RwLockUpgradableReadGuard as RwLockReadGuard;"), (DYN, "RwLockReadGuard", "RwLockUpgradableReadGuard"), (DYN, "RwLockReadGuard<", "RwLockUpgradableReadGuard<"), (DYN, "REGISTRY.read()", "REGISTRY.upgradable_read()"))

ok('v19-opts', 'C19', (CNV, "File::create(output)?", "File::options().write(true).create(true).truncate(true).open(output)?"))
ok('v19-opts-in', 'C19', (CNV, "File::open(input)?", "File::options().read(true).open(input)?"))
bug('v19-appendflag', 'C19', (CNV, "File::create(output)?", "File::options().append(true).create(true).open(output)?"))
