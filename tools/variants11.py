from variants import *
from variants9 import sec
UPD = "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n"
bug('k13-two-locks', 'C13', (HIS, UPD, "        let (low, high) = data.split_at(data.len() / 2);\n        self.get_or_init().write().as_mut_slice()[..low.len()].copy_from_slice(low);\n        self.get_or_init().write().as_mut_slice()[low.len()..].copy_from_slice(high);\n"))
ok('k13-get-set', 'C13', (HIS, "        self.inner\n            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))\n", "        if let Some(histogram) = self.inner.get() {\n            return histogram;\n        }\n        self.inner\n            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))\n"))
ok('k13-set-then-get', 'C13', (HIS, "        self.inner\n            .get_or_init(|| ::histogram::AtomicHistogram::with_config(&self.config))\n", "        let _ = self\n            .inner\n            .set(::histogram::AtomicHistogram::with_config(&self.config));\n        self.inner.get().expect(\"just initialised\")\n"))
bug('k13-load-drain', 'C13', (HIS, "        self.inner.get().map(|h| h.load())\n", "        self.inner.get().map(|h| h.drain())\n"))
bug('k13-inc-loaded', 'C13', (HIS, "        self.get_or_init().increment(value)\n", "        match self.get_or_init().increment(value) {\n            Err(Error::OutOfRange) => self\n                .get_or_init()\n                .increment((1u64 << (self.config.max_value_power().min(63))) - 1),\n            result => result,\n        }\n"))
bug('k13-try-write', 'C13', (HIS, UPD, "        if let Some(mut histogram) = self.get_or_init().try_write() {\n            histogram.as_mut_slice().copy_from_slice(data);\n        }\n"))
bug('k13-replace-inner', 'C13', (HIS, UPD, "        let fresh = ::histogram::Histogram::from_buckets(\n            self.config.grouping_power(),\n            self.config.max_value_power(),\n            data.to_vec(),\n        )?;\n        if let Err(unused) = self.inner.set(fresh.into()) {\n            drop(unused);\n        }\n"))
ok('k13-from-buckets', 'C13', (HIS, UPD, "        let fresh = ::histogram::Histogram::from_buckets(\n            self.config.grouping_power(),\n            self.config.max_value_power(),\n            data.to_vec(),\n        )?;\n        *self.get_or_init().write() = fresh;\n"))
# snapshot
HSH = "        let gauges: HashMap<String, Gauge> = HashMap::from_iter(\n            snapshot\n                .gauges()\n                .into_iter()\n                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),\n        );\n"
ok('k18-hash-loop', 'C18', (SNP, HSH, "        let mut gauges: HashMap<String, Gauge> = HashMap::new();\n        for gauge in snapshot.gauges() {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            gauges.insert(name, gauge);\n        }\n"))
ok('k18-hash-collect', 'C18', (SNP, HSH, "        let named = |gauge: Gauge| {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            (name, gauge)\n        };\n        let gauges = snapshot.gauges().into_iter().map(named).collect();\n"))
bug('k18-hash-own', 'C18', (SNP, HSH, "        let gauges: HashMap<String, Gauge> = HashMap::from_iter(\n            snapshot\n                .gauges()\n                .into_iter()\n                .map(|v| (v.name.clone(), v)),\n        );\n"))
bug('k18-hash-filter', 'C18', (SNP, HSH, "        let gauges: HashMap<String, Gauge> = HashMap::from_iter(\n            snapshot\n                .gauges()\n                .into_iter()\n                .filter(|v| !v.name.is_empty())\n                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),\n        );\n"))
bug('k18-ms', 'C18', (SNP, "        let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);\n", "        let duration: Option<u64> = snapshot\n            .duration()\n            .map(|x| x.as_micros() as u64 * 1_000);\n"))
bug('k18-dur-zero', 'C18', (SNP, "        let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);\n", "        let duration: Option<u64> = snapshot\n            .duration()\n            .map(|x| x.as_nanos() as u64)\n            .filter(|x| *x > 0);\n"))
ok('k18-dur-and', 'C18', (SNP, "        let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);\n", "        let duration = match snapshot.duration() {\n            Some(elapsed) => Some(elapsed.as_nanos() as u64),\n            None => None,\n        };\n"))
ok('k18-field-order', 'C18', (SNP, sec(SNP, "        Self {\n            ts,\n", "    }\n}\n"), "        HashedSnapshot {\n            histograms,\n            gauges,\n            counters,\n            duration,\n            ts,\n        }\n"))
# snapshotter
bug('k14-atomic-only', 'C14', (SNR, "                    } else if let Some(histogram) = other.downcast_ref::<RwLockHistogram>() {\n                        histogram.load()\n", "                    } else if let Some(histogram) = other.downcast_ref::<RwLockHistogram>() {\n                        histogram\n                            .load()\n                            .filter(|h| h.as_slice().iter().any(|c| *c != 0))\n"))
ok('k14-or-else', 'C14', (SNR, sec(SNR, "                    let histogram = if let Some(histogram) = other.downcast_ref", "                    if let Some(histogram) = histogram {"), "                    let histogram = match other.downcast_ref::<AtomicHistogram>() {\n                        Some(histogram) => histogram.load(),\n                        None => other\n                            .downcast_ref::<RwLockHistogram>()\n                            .and_then(|histogram| histogram.load()),\n                    };\n\n"))
ok('k14-asany', 'C14', (SNR, "                Some(Value::Other(other)) => {\n", "                Some(Value::Other(any)) => {\n                    let other = any;\n"))
bug('k14-config-swap', 'C14', (SNR, "histogram.config().max_value_power().to_string(),", "histogram.config().total_buckets().ilog2().to_string(),"))
bug('k14-cfg-overwrites', 'C14', (SNR, "                        metadata.insert(\n                            \"grouping_power\".to_string(),\n                            histogram.config().grouping_power().to_string(),\n                        );\n", "                        metadata\n                            .entry(\"grouping_power\".to_string())\n                            .or_insert_with(|| histogram.config().grouping_power().to_string());\n"))
# dynamic registry
bug('k02-reg-read', 'C02', (DYN, "    REGISTRY.write().register(entry);\n", "    let known = REGISTRY\n        .read()\n        .metrics\n        .contains_key(&DynMetricsRegistry::key_for(&entry));\n    if !known {\n        REGISTRY.write().register(entry);\n    }\n"))
bug('k01-named', 'C01', (DYN, "        self.metrics.remove(&key);\n", "        if self.metrics.get(&key).is_some_and(|e| e.is_enabled()) {\n            self.metrics.remove(&key);\n        }\n"))
bug('k02-byname', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);\n", "        self.metrics.retain(|_, e| e.name() != entry.name());\n        self.metrics.insert(Self::key_for(&entry), entry);\n"))
bug('k02-rangedrop', 'C02', (DYN, "        self.metrics.remove(&key);\n", "        let last = self.metrics.range(..=key).next_back().map(|(k, _)| *k);\n        if let Some(last) = last {\n            self.metrics.remove(&last);\n        }\n"))
ok('k02-entry-remove', 'C02', (DYN, "        self.metrics.remove(&key);\n", "        if let std::collections::btree_map::Entry::Occupied(occupied) = self.metrics.entry(key) {\n            occupied.remove();\n        }\n"))
ok('k02-remove-entry', 'C02', (DYN, "        self.metrics.remove(&key);\n", "        let _removed = self.metrics.remove_entry(&key);\n"))
# builder
bug('k07-desc-empty', 'C07', (DYN, "        self.desc = Some(desc.into());\n", "        let desc = desc.into();\n        self.desc = if desc.is_empty() { None } else { Some(desc) };\n"))
bug('k07-meta-trim', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n", "        let key: String = key.into();\n        if !key.is_empty() {\n            self.metadata.insert(key, value.into());\n        }\n"))
ok('k07-meta-let', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n", "        let (key, value) = (key.into(), value.into());\n        let _replaced = self.metadata.insert(key, value);\n"))
# wrapper
bug('k06-provide-once', 'C06', (WRAP, "        <P as InjectedProvider>::provide(request);\n        self.metric.provide(request)\n", "        <P as InjectedProvider>::provide(request);\n        if self.metric.is_enabled() {\n            self.metric.provide(request)\n        }\n"))
bug('k06-lazy-enabled', 'C06', (LAZ, "        if let Some(metric) = Lazy::get(self) {\n            metric.provide(request);\n", "        if let Some(metric) = Lazy::get(self).filter(|metric| metric.is_enabled()) {\n            metric.provide(request);\n"))
# canonical
bug('k16-empty-id', 'C16', (SNP, "    if let Some(v) = metadata.get(\"id\") {\n", "    if let Some(v) = metadata.get(\"id\").filter(|v| v.parse::<u64>().is_ok()) {\n"))
bug('k16-metric-empty', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {\n", "    let Some(name) = metadata.get(\"metric\").filter(|name| !name.is_empty()) else {\n"))
ok('k16-question', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {\n        return snapshot_name.to_string();\n    };\n", "    let name = match metadata.get(\"metric\") {\n        Some(metric) => metric,\n        None => return snapshot_name.to_owned(),\n    };\n"))
# schema
bug('k17-dedup-names', 'C17', (PAR, "            // initialize storage for the gauge values\n            gauges.push(gauge);\n", "            // initialize storage for the gauge values\n            if !counters.contains(&gauge) {\n                gauges.push(gauge);\n            }\n"))
bug('k17-meta-type', 'C17', (PAR, "            metadata.insert(\"metric_type\".to_string(), \"gauge\".to_string());\n", "            metadata\n                .entry(\"metric_type\".to_string())\n                .or_insert_with(|| \"gauge\".to_string());\n"))
bug('k17-sorted', 'C17', (PAR, "        let schema = Arc::new(Schema::new(fields));\n", "        fields[2..].sort_by(|a, b| a.name().cmp(b.name()));\n        let schema = Arc::new(Schema::new(fields));\n"))
bug('k19-batch-zero', 'C19', (PAR, "            .set_max_row_group_size(options.max_batch_size)\n", "            .set_max_row_group_size(options.max_batch_size.min(DEFAULT_MAX_BATCH_SIZE))\n"))
bug('k15-v1dur', 'C15', (SNP, "            Snapshot::V1(_) => None,\n", "            Snapshot::V1(_) => Some(Duration::ZERO),\n"))
