"""Edited versions of /repo used by selftest.py to test the checks both ways."""
V = []
CTR = 'metriken/src/counter.rs'; GAU = 'metriken/src/gauge.rs'; HIS = 'metriken/src/histogram.rs'; LAZ = 'metriken/src/lazy.rs'
DYN = 'metriken-core/src/dynmetrics.rs'; MET = 'metriken-core/src/metrics.rs'; LIB = 'metriken-core/src/lib.rs'; PROV = 'metriken-core/src/provide.rs'
WRAP = 'metriken-core/src/wrapper.rs'; META = 'metriken-core/src/metadata.rs'; FMT = 'metriken-core/src/formatter.rs'
DER = 'metriken-derive/src/metric.rs'; ARGS = 'metriken-derive/src/args.rs'
SNP = 'metriken-exposition/src/snapshot.rs'; SNR = 'metriken-exposition/src/snapshotter.rs'; PAR = 'metriken-exposition/src/parquet.rs'; CNV = 'metriken-exposition/src/convert.rs'
def bug(name, prop, *edits): V.append({'name': name, 'prop': prop, 'kind': 'bug', 'edits': edits})
def ok(name, prop, *edits): V.append({'name': name, 'prop': prop, 'kind': 'ok', 'edits': edits})

# ---- C11
CADD = "self.0.fetch_add(value, Ordering::Relaxed)"
ok('c11-cas-loop', 'C11', (CTR, CADD, """let mut cur = self.0.load(Ordering::Relaxed);
        loop {
            match self.0.compare_exchange_weak(cur, cur.wrapping_add(value), Ordering::Relaxed, Ordering::Relaxed) {
                Ok(old) => return old,
                Err(seen) => cur = seen,
            }
        }"""))
ok('c11-fetch-update', 'C11', (GAU, CADD, """match self.0.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |v| Some(v.wrapping_add(value))) {
            Ok(v) | Err(v) => v,
        }"""))
ok('c11-decrement-add', 'C11', (GAU, "self.sub(1)", "self.add(-1)"))
ok('c11-helper', 'C11', (CTR, CADD, "let old = Self::bump(&self.0, value);\n        old"), (CTR, "impl Counter {", "impl Counter {\n    fn bump(a: &AtomicU64, v: u64) -> u64 { a.fetch_add(v, Ordering::AcqRel) }\n"))
ok('c11-sub-neg', 'C11', (GAU, "self.0.fetch_sub(value, Ordering::Relaxed)", "self.0.fetch_add(value.wrapping_neg(), Ordering::Relaxed)"))
bug('c11-load-store', 'C11', (CTR, CADD, "let old = self.0.load(Ordering::Relaxed);\n        self.0.store(old.wrapping_add(value), Ordering::Relaxed);\n        old"))
bug('c11-set-load-store', 'C11', (GAU, "self.0.swap(value, Ordering::Relaxed)", "let old = self.value();\n        self.0.store(value, Ordering::Relaxed);\n        old"))
bug('c11-saturate', 'C11', (GAU, CADD, "self.0.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |v| Some(v.saturating_add(value))).unwrap_or_else(|v| v)"))
bug('c11-cas-stale', 'C11', (CTR, CADD, """let start = self.0.load(Ordering::Relaxed);
        let mut cur = start;
        loop {
            match self.0.compare_exchange_weak(cur, start.wrapping_add(value), Ordering::Relaxed, Ordering::Relaxed) {
                Ok(old) => return old,
                Err(seen) => cur = seen,
            }
        }"""))
bug('c11-cas-giveup', 'C11', (CTR, CADD, "let cur = self.0.load(Ordering::Relaxed);\n        self.0.compare_exchange(cur, cur.wrapping_add(value), Ordering::Relaxed, Ordering::Relaxed).unwrap_or_else(|v| v)"))
bug('c11-return-new', 'C11', (GAU, "self.0.fetch_sub(value, Ordering::Relaxed)", "self.0.fetch_sub(value, Ordering::Relaxed).wrapping_sub(value)"))
bug('c11-report-kind', 'C11', (GAU, "Some(Value::Gauge(self.value()))", "let v = self.value();\n        if v < 0 { Some(Value::Gauge(v)) } else { Some(Value::Counter(v as u64)) }"))
bug('c11-reset-nonzero', 'C11', (CTR, "self.set(0)", "self.0.fetch_and(0, Ordering::Relaxed) & !(1 << 63)"))

# ---- C02
INS = "self.metrics.insert(Self::key_for(&entry), entry);"
RM = "self.metrics.remove(&key);"
bug('c02-or-insert', 'C02', (DYN, INS, "let key = Self::key_for(&entry);\n        self.metrics.entry(key).or_insert(entry);"))
bug('c02-key-trunc', 'C02', (DYN, "entry.metric() as *const dyn Metric as *const () as usize\n", "(entry.metric() as *const dyn Metric as *const () as usize) & 0xffff_ffff\n"), (DYN, "let key = metric as *const () as usize;", "let key = (metric as *const () as usize) & 0xffff_ffff;"))
bug('c02-key-u32', 'C02', (DYN, "entry.metric() as *const dyn Metric as *const () as usize\n", "entry.metric() as *const dyn Metric as *const () as usize as u32 as usize\n"), (DYN, "let key = metric as *const () as usize;", "let key = metric as *const () as usize as u32 as usize;"))
bug('c02-same-name-skip', 'C02', (DYN, INS, "if self.metrics.values().any(|e| e.name() == entry.name()) {\n            return;\n        }\n        " + INS))
bug('c02-remove-by-name', 'C02', (DYN, RM, "if let Some(entry) = self.metrics.remove(&key) {\n            self.metrics.retain(|_, e| e.name() != entry.name());\n        }"))
bug('c02-drop-desc', 'C02', (DYN, "entry.metric = &self.metric;\n", "entry.metric = &self.metric;\n        if entry.name.is_empty() { entry.description = None; }\n"))
bug('c02-inner-key', 'C02', (DYN, "entry.metric = &self.metric;\n", "entry.metric = &self.metric.metric;\n"), (DYN, "unregister(&self.metric);", "unregister(&self.metric.metric);"))
bug('c02-only-enabled', 'C02', (DYN, "unsafe { register(entry) };", "if self.metric.is_enabled() {\n            unsafe { register(entry) };\n        }"))
bug('c02-clear-when-last', 'C02', (DYN, RM, "if self.metrics.len() < 2 {\n            self.metrics.clear();\n        } else {\n            self.metrics.remove(&key);\n        }"))
bug('c02-remove-mismatch', 'C02', (DYN, "let key = metric as *const () as usize;", "let key = metric as *const () as usize & !0xf;"))
ok('c02-retain', 'C02', (DYN, RM, "self.metrics.retain(|k, _| *k != key);"))
ok('c02-retain-metric', 'C02', (DYN, "let key = metric as *const () as usize;\n        self.metrics.remove(&key);", "let key = metric as *const () as usize;\n        self.metrics.retain(|_, entry| Self::key_for(entry) != key);"))
ok('c02-entry-match', 'C02', (DYN, INS, "use std::collections::btree_map::Entry;\n        match self.metrics.entry(Self::key_for(&entry)) {\n            Entry::Occupied(mut e) => { e.insert(entry); }\n            Entry::Vacant(e) => { e.insert(entry); }\n        }"))
ok('c02-contains', 'C02', (DYN, RM, "if self.metrics.contains_key(&key) {\n            self.metrics.remove(&key);\n        }"))
ok('c02-hashmap-ptrfn', 'C02', (DYN, "entry.metric() as *const dyn Metric as *const () as usize\n", "Self::key_of(entry.metric)\n"), (DYN, "let key = metric as *const () as usize;", "let key = Self::key_of(metric);"), (DYN, "    fn register(&mut self, entry", "    fn key_of(metric: *const dyn Metric) -> usize {\n        metric.cast::<()>() as usize\n    }\n\n    fn register(&mut self, entry"))
ok('c02-inline-lock', 'C02', (DYN, "unsafe { register(entry) };", "let mut registry = REGISTRY.write();\n        registry.register(entry);\n        drop(registry);"))
ok('c02-remove-first', 'C02', (DYN, INS, "let key = Self::key_for(&entry);\n        let _previous = self.metrics.remove(&key);\n        self.metrics.insert(key, entry);"))
ok('c02-get-mut', 'C02', (DYN, INS, "let key = Self::key_for(&entry);\n        if let Some(slot) = self.metrics.get_mut(&key) {\n            *slot = entry;\n        } else {\n            self.metrics.insert(key, entry);\n        }"))

# ---- C01
UNREG = "REGISTRY.write().unregister(metric);"
bug('c01-try-write', 'C01', (DYN, UNREG, "if let Some(mut registry) = REGISTRY.try_write() {\n        registry.unregister(metric);\n    }"))
bug('c01-try-for', 'C01', (DYN, UNREG, "if let Some(mut registry) = REGISTRY.try_write_for(std::time::Duration::from_millis(500)) {\n        registry.unregister(metric);\n    }"))
bug('c01-only-enabled', 'C01', (DYN, "        unregister(&self.metric);", "        if self.metric.is_enabled() {\n            unregister(&self.metric);\n        }"))
bug('c01-panicking', 'C01', (DYN, "        unregister(&self.metric);", "        if !std::thread::panicking() {\n            unregister(&self.metric);\n        }"))
bug('c01-unpin', 'C01', (DYN, "    _pinned: PhantomPinned,\n}", "    _pinned: std::marker::PhantomData<M>,\n}"), (DYN, "_pinned: PhantomPinned,\n        }", "_pinned: std::marker::PhantomData,\n        }"))
bug('c01-impl-unpin', 'C01', (DYN, "impl<M: Metric> Drop for DynPinnedMetric<M> {", "impl<M: Metric> Unpin for DynPinnedMetric<M> {}\n\nimpl<M: Metric> Drop for DynPinnedMetric<M> {"))
bug('c01-register-ref', 'C01', (DYN, "pub fn register(self: Pin<&Self>, mut entry: MetricEntry)", "pub fn register(&self, mut entry: MetricEntry)"))
bug('c01-derefmut', 'C01', (DYN, "/// A dynamic metric that stores the metric instance on the heap.", "impl<M: Metric> std::ops::DerefMut for DynPinnedMetric<M> {\n    fn deref_mut(&mut self) -> &mut M {\n        &mut self.metric.metric\n    }\n}\n\n/// A dynamic metric that stores the metric instance on the heap."))
bug('c01-entry-clone', 'C01', (LIB, "/// A statically declared metric entry.\n", "/// A statically declared metric entry.\n#[derive(Clone)]\n"))
bug('c01-static-iter', 'C01', (MET, "pub fn dynamic_metrics(&self) -> DynMetricsIter {\n        DynMetricsIter(self.dyn_metrics.metrics().values())", "pub fn dynamic_metrics(&self) -> DynMetricsIter<'static> {\n        let map: &'static BTreeMap<usize, MetricEntry> = unsafe { &*(self.dyn_metrics.metrics() as *const _) };\n        DynMetricsIter(map.values())"))
bug('c01-metric-static', 'C01', (LIB, "pub fn metric(&self) -> &dyn Metric {", "pub fn metric(&self) -> &'static dyn Metric {"))
bug('c01-manually-drop', 'C01', (DYN, "pub struct DynBoxedMetric<M: Metric> {\n    metric: Pin<Box<DynPinnedMetric<M>>>,", "pub struct DynBoxedMetric<M: Metric> {\n    metric: std::mem::ManuallyDrop<Pin<Box<DynPinnedMetric<M>>>>,"), (DYN, "let metric = Box::pin(metric);\n", "let metric = std::mem::ManuallyDrop::new(Box::pin(metric));\n"))
bug('c01-spawn', 'C01', (DYN, "        unregister(&self.metric);", "        let p = &self.metric as *const ProviderMetric<M> as usize;\n        std::thread::spawn(move || REGISTRY.write().metrics.remove(&p));"))
ok('c01-helper', 'C01', (DYN, "        unregister(&self.metric);", "        self.withdraw();"), (DYN, "    fn new_v2(metric: M, provider", "    fn withdraw(&self) {\n        let metric: *const dyn Metric = &self.metric;\n        unregister(metric);\n    }\n\n    fn new_v2(metric: M, provider"))
ok('c01-boxed-direct', 'C01', (DYN, "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        this.register(entry);\n        this", "        let metric = Box::pin(metric);\n        metric.as_ref().register(entry);\n        Self { metric }"))
ok('c01-occupied', 'C01', (DYN, RM, "if let std::collections::btree_map::Entry::Occupied(slot) = self.metrics.entry(key) {\n            slot.remove();\n        }"))

# ---- C03
NX = "self.sm.next().or_else(|| self.dm.next())"
NTH = "let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))"
FOLD = "let init = self.sm.fold(init, &mut f);\n        self.dm.fold(init, f)"
SH = """        match (shi, dhi) {
            (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),
            _ => (slo.saturating_add(dlo), None),
        }"""
bug('c03-nth-len-after', 'C03', (MET, NTH, "self.sm.nth(n).or_else(|| self.dm.nth(n - self.sm.len()))"))
bug('c03-nth-n', 'C03', (MET, NTH, "self.sm.nth(n).or_else(|| self.dm.nth(n))"))
bug('c03-nth-saturating', 'C03', (MET, NTH, "let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth((n + 1).saturating_sub(len)))"))
bug('c03-next-order', 'C03', (MET, NX, "self.dm.next().or_else(|| self.sm.next())"))
bug('c03-next-drop', 'C03', (MET, NX, "match self.sm.next() {\n            Some(e) if e.name().is_empty() => self.sm.next(),\n            Some(e) => Some(e),\n            None => self.dm.next(),\n        }"))
bug('c03-count-len', 'C03', (MET, "self.sm.count() + self.dm.count()", "self.sm.count().max(self.dm.count())"))
ok('c03-hint-lower-static', 'C03', (MET, SH, "        let _ = (shi, dhi);\n        (slo, Some(slo + dlo))"))
bug('c03-hint-double', 'C03', (MET, SH, "        let _ = (shi, dhi);\n        (slo + slo + dlo, None)"))
ok('c03-hint-weak', 'C03', (MET, SH, "        let _ = (dhi, dlo);\n        (slo, shi.and(None))"))
bug('c03-hint-upper-static', 'C03', (MET, SH, "        let _ = dhi;\n        (slo + dlo, shi)"))
bug('c03-rfold', 'C03', (MET, "let init = self.dm.rfold(init, &mut f);\n        self.sm.rfold(init, f)", "let init = self.dm.fold(init, &mut f);\n        self.sm.rfold(init, f)"))
bug('c03-fold-skip', 'C03', (MET, FOLD, "let init = self.sm.fold(init, &mut f);\n        self.dm.skip(1).fold(init, f)"))
bug('c03-next-back', 'C03', (MET, "self.dm.next_back().or_else(|| self.sm.next_back())", "self.dm.next_back().or_else(|| self.sm.next())"))
bug('c03-dyn-nth-back', 'C03', (MET, "self.0.nth_back(n)", "self.0.nth(n)"))
bug('c03-iter-filter', 'C03', (MET, "self.into_iter()", "MetricsIter::new(&self.static_metrics()[..self.static_metrics().len().min(1024)], self.dyn_metrics.metrics())"))
bug('c03-nth-back-len', 'C03', (MET, "let len = self.dm.len();\n        self.dm.nth_back(n)", "let len = self.sm.len();\n        self.dm.nth_back(n)"))
ok('c03-next-match', 'C03', (MET, NX, "match self.sm.next() {\n            Some(e) => Some(e),\n            None => self.dm.next(),\n        }"))
ok('c03-nth-match', 'C03', (MET, NTH, "let statics = self.sm.len();\n        if n < statics {\n            return self.sm.nth(n);\n        }\n        let _ = self.sm.nth(n);\n        self.dm.nth(n - statics)"))
ok('c03-nth-loop', 'C03', (MET, NTH, "let mut n = n;\n        loop {\n            let item = self.next()?;\n            if n == 0 {\n                return Some(item);\n            }\n            n -= 1;\n        }"))
ok('c03-fold-loop', 'C03', (MET, FOLD, "let mut acc = init;\n        for entry in self.sm {\n            acc = f(acc, entry);\n        }\n        for entry in self.dm {\n            acc = f(acc, entry);\n        }\n        acc"))
ok('c03-count-len', 'C03', (MET, "self.sm.count() + self.dm.count()", "self.sm.len() + self.dm.len()"))
ok('c03-hint-exact', 'C03', (MET, SH, "        let _ = (slo, shi, dlo, dhi);\n        let total = self.sm.len() + self.dm.len();\n        (total, Some(total))"))
ok('c03-fold-chain', 'C03', (MET, FOLD, "self.sm.chain(self.dm).fold(init, f)"))
ok('c03-no-nth', 'C03', (MET, "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        " + NTH + "\n    }\n\n", ""))
ok('c03-iflet', 'C03', (MET, NX, "if let Some(entry) = self.sm.next() {\n            return Some(entry);\n        }\n        self.dm.next()"))

# ---- C04
REG = "REGISTRY.write().register(entry);"
bug('c04-double-lock', 'C04', (DYN, UNREG, "let mut registry = REGISTRY.write();\n    registry.unregister(metric);\n    debug_assert!(get_registry().metrics().len() < usize::MAX);"))
bug('c04-user-under-write', 'C04', (DYN, "        entry.metric = &self.metric;\n", "        entry.metric = &self.metric;\n        let registry = REGISTRY.write();\n        if !self.metric.is_enabled() && registry.metrics.is_empty() {\n            log(&entry);\n        }\n        drop(registry);\n"), (DYN, "/// A metric combined with a set of dynamic providers.", "fn log(_entry: &MetricEntry) {}\n\n/// A metric combined with a set of dynamic providers."))
bug('c04-register-retain-enabled', 'C04', (DYN, INS, "self.metrics.retain(|_, e| e.is_enabled() || !e.name().is_empty());\n        " + INS))
bug('c04-forget', 'C04', (MET, "    pub fn iter(&self)", "    /// Keep the listing for ever.\n    pub fn freeze(self) {\n        std::mem::forget(self)\n    }\n\n    pub fn iter(&self)"))
bug('c04-snapshot-two', 'C04', (SNR, "        // iterate through", "        counters.reserve(metriken::metrics().dynamic_metrics().count());\n\n        // iterate through"))
bug('c04-snapshot-nested', 'C04', (SNR, "            match metric.value() {", "            if metriken::metrics().dynamic_metrics().next().is_none() && metric.name().is_empty() {\n                continue;\n            }\n            match metric.value() {"))
bug('c04-hist-nested', 'C04', (HIS, "let mut histogram = self.get_or_init().write();", "let cell = self.get_or_init();\n        let _current = cell.read();\n        let mut histogram = cell.write();"))
bug('c04-drop-under-lock', 'C04', (DYN, "let this = Self { metric };\n        this.register(entry);\n        this", "let this = Self { metric };\n        if entry.name.is_empty() {\n            let _registry = REGISTRY.write();\n            drop(this);\n            panic!(\"unnamed\");\n        }\n        this.register(entry);\n        this"))
ok('c04-scoped', 'C04', (DYN, UNREG, "let removed = {\n        let mut registry = REGISTRY.write();\n        let before = registry.metrics.len();\n        registry.unregister(metric);\n        before - registry.metrics.len()\n    };\n    debug_assert!(removed <= 1);"))
ok('c04-drop-explicit', 'C04', (DYN, REG, "let mut registry = REGISTRY.write();\n    registry.register(entry);\n    std::mem::drop(registry);\n    let _ = get_registry().metrics().len();"))
ok('c04-snap-let', 'C04', (SNR, "for metric in &metriken::metrics() {", "let listing = metriken::metrics();\n        for metric in listing.iter() {"))

# ---- C05
PRO = 'metriken-core/src/provide.rs'
PW = """        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {
            res.0 = Some(fulfil());
        }
"""
DCM = """        if self.tag_id() == TypeId::of::<I>() {
            // SAFETY: Just checked whether we're pointing to an I.
            Some(unsafe { &mut *(self as *mut Self).cast::<TaggedOption<'a, I>>() })
        } else {
            None
        }"""
WBS = "matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))"
bug('c05-last-wins', 'C05', (PRO, PW, "        if let Some(res) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n"))
bug('c05-unchecked', 'C05', (PRO, DCM, "        if std::mem::size_of_val(self) == std::mem::size_of::<TaggedOption<'a, I>>() {\n            Some(unsafe { &mut *(self as *mut Self).cast::<TaggedOption<'a, I>>() })\n        } else {\n            None\n        }"))
bug('c05-name-check', 'C05', (PRO, DCM, DCM.replace("self.tag_id() == TypeId::of::<I>()", "self.tag_id() == TypeId::of::<I>() || std::mem::size_of::<I::Reified>() == 0")))
bug('c05-value-ref-tag', 'C05', (PRO, "pub fn provide_ref<T: ?Sized + 'static>(&mut self, value: &'a T) -> &mut Self {\n        self.provide::<tags::Ref<tags::MaybeSizedValue<T>>>(value)", "pub fn provide_ref<T: 'static>(&mut self, value: &'a T) -> &mut Self {\n        self.provide::<tags::Ref<tags::Value<T>>>(value)".replace('tags::Ref<tags::Value<T>>','tags::Ref<tags::MaybeSizedValue<T>>').replace("T: 'static", "T: ?Sized + 'static")) if False else (PRO, "    fn tag_id(&self) -> TypeId {\n        TypeId::of::<I>()", "    fn tag_id(&self) -> TypeId {\n        TypeId::of::<I::Reified>()".replace('I::Reified', 'tags::Ref<I>')))
bug('c05-would-taken', 'C05', (PRO, WBS, "self.0.downcast::<I>().is_some()"))
bug('c05-would-neg', 'C05', (PRO, WBS, "matches!(self.0.downcast::<I>(), Some(TaggedOption(Some(_))))"))
bug('c05-would-ref-value', 'C05', (PRO, "self.would_be_satisfied_by::<tags::Ref<tags::MaybeSizedValue<T>>>()", "self.would_be_satisfied_by::<tags::MaybeSizedTag<T>>()".replace('tags::MaybeSizedTag<T>', "tags::Ref<tags::MaybeSizedValue<&'static T>>")))
bug('c05-request-twice', 'C05', (PRO, "    metric.provide(tagged.as_request());\n", "    metric.provide(tagged.as_request());\n    if tagged.0.is_none() {\n        metric.provide(tagged.as_request());\n    }\n"))
bug('c05-tag-unit', 'C05', (PRO, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: We just", "        if self.tag_id() == TypeId::of::<I>() || self.tag_id() == TypeId::of::<tags::Value<()>>() {\n            // SAFETY: We just"))
ok('c05-then', 'C05', (PRO, DCM, "        (self.tag_id() == TypeId::of::<I>())\n            .then(|| unsafe { &mut *(self as *mut Self).cast::<TaggedOption<'a, I>>() })"))
ok('c05-helper-is', 'C05', (PRO, DCM, DCM.replace("self.tag_id() == TypeId::of::<I>()", "self.is::<I>()")), (PRO, "    /// Returns a mutable reference to the dynamic value", "    fn is<I>(&self) -> bool\n    where\n        I: tags::Type<'a>,\n    {\n        TypeId::of::<I>() == self.tag_id()\n    }\n\n    /// Returns a mutable reference to the dynamic value"))
ok('c05-guard', 'C05', (PRO, DCM, "        if self.tag_id() != TypeId::of::<I>() {\n            return None;\n        }\n        let slot = self as *mut Self as *mut TaggedOption<'a, I>;\n        Some(unsafe { &mut *slot })"))
ok('c05-pw-match', 'C05', (PRO, PW, "        let Some(slot) = self.0.downcast_mut::<I>() else {\n            return self;\n        };\n        if slot.0.is_none() {\n            slot.0.replace(fulfil());\n        }\n"))
ok('c05-pw-goi', 'C05', (PRO, PW, "        if let Some(slot) = self.0.downcast_mut::<I>() {\n            slot.0.get_or_insert_with(fulfil);\n        }\n"))
ok('c05-would-map', 'C05', (PRO, WBS, "self.0.downcast::<I>().map_or(false, |slot| slot.0.is_none())"))
ok('c05-would-and', 'C05', (PRO, WBS, "self.0.tag_id() == TypeId::of::<I>() && self.0.downcast::<I>().is_some_and(|s| s.0.is_none())"))
ok('c05-provide-direct', 'C05', (PRO, "self.provide_with::<I>(move || value)", "if let Some(slot) = self.0.downcast_mut::<I>() {\n            if slot.0.is_none() {\n                *slot = TaggedOption(Some(value));\n            }\n        }\n        self"))
ok('c05-request-take', 'C05', (PRO, "    tagged.0\n", "    tagged.0.take()\n"))

# ---- C06
DPROV = "self.provider.provide(request);\n        self.metric.provide(request);"
WPROV = "<P as InjectedProvider>::provide(request);\n        self.metric.provide(request)"
FMTD = """        let formatter = self
            .request_value::<crate::wrapper::FormattingFn>()
            .or_else(|| {
                self.request_ref::<crate::wrapper::FormattingFn>()
                    .map(|func| crate::wrapper::FormattingFn(func.0))
            })
            .map(|func| func.0)
            .unwrap_or(crate::default_formatter);

        formatter(self, format)"""
bug('c06-provide-order', 'C06', (DYN, DPROV, "self.metric.provide(request);\n        self.provider.provide(request);"))
bug('c06-wrapper-order', 'C06', (WRAP, WPROV, "self.metric.provide(request);\n        <P as InjectedProvider>::provide(request)"))
bug('c06-provide-only-enabled', 'C06', (DYN, DPROV, "self.provider.provide(request);\n        if self.metric.is_enabled() {\n            self.metric.provide(request);\n        }"))
bug('c06-provide-drop', 'C06', (WRAP, WPROV, "<P as InjectedProvider>::provide(request);"))
bug('c06-any-self', 'C06', (DYN, "        self.metric.as_any()\n", "        self.metric.as_any().map(|_| &self.metric as &dyn std::any::Any)\n"))
bug('c06-enabled-default', 'C06', (WRAP, "    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled()\n    }\n\n", ""))
bug('c06-enabled-value', 'C06', (DYN, "        self.metric.is_enabled()\n", "        self.metric.is_enabled() && self.metric.value().is_some()\n"))
bug('c06-value-enabled', 'C06', (WRAP, "        self.metric.value()\n", "        if !self.metric.is_enabled() {\n            return None;\n        }\n        self.metric.value()\n"))
bug('c06-lazy-provide', 'C06', (LAZ, "        if let Some(metric) = Lazy::get(self) {\n            metric.provide(request);\n        }\n", "        let _ = request;\n"))
bug('c06-lazy-value', 'C06', (LAZ, "Lazy::get(self).and_then(|metric| metric.value())", "Lazy::get(self).filter(|metric| metric.is_enabled()).and_then(|metric| metric.value())"))
bug('c06-lookup', 'C06', (PROV, "        if let Some(element) = self.0.get(&request.0.tag_id()) {", "        if self.0.len() == 1 {\n            if let Some(element) = self.0.values().next() {\n                Self::provide_dyn(&**element, request);\n            }\n        } else if let Some(element) = self.0.get(&Self::typeid_for::<crate::Metadata>()) {"))
bug('c06-fmt-ref-only', 'C06', (LIB, FMTD, FMTD.replace(".or_else(|| {\n                self.request_ref::<crate::wrapper::FormattingFn>()\n                    .map(|func| crate::wrapper::FormattingFn(func.0))\n            })\n            ", "")))
bug('c06-desc-empty', 'C06', (LIB, "self.description.as_deref()", "self.description.as_deref().filter(|d| !d.is_empty())"))
bug('c06-entry-desc', 'C06', (LIB, "                None => None,\n            },", "                None => Some(Cow::Borrowed(name)),\n            },"))
bug('c06-metadata-name', 'C06', (LIB, "self.request_ref::<Metadata>().unwrap_or(&EMPTY)", "if !self.metric().is_enabled() {\n            return &EMPTY;\n        }\n        self.request_ref::<Metadata>().unwrap_or(&EMPTY)"))
ok('c06-fmt-match', 'C06', (LIB, FMTD, """        use crate::wrapper::FormattingFn;
        let formatter = match self.request_value::<FormattingFn>() {
            Some(func) => func.0,
            None => match self.request_ref::<FormattingFn>() {
                Some(func) => func.0,
                None => crate::default_formatter,
            },
        };
        formatter(self, format)"""))
ok('c06-fmt-return', 'C06', (LIB, FMTD, """        use crate::wrapper::FormattingFn;
        if let Some(FormattingFn(func)) = self.request_value::<FormattingFn>() {
            return func(self, format);
        }
        if let Some(func) = self.request_ref::<FormattingFn>() {
            return (func.0)(self, format);
        }
        crate::default_formatter(self, format)"""))
ok('c06-fmt-helper', 'C06', (LIB, FMTD, "(self.formatting_fn())(self, format)"), (LIB, "    /// Checks whether `metric` is the metric for this entry.", """    fn formatting_fn(&self) -> fn(&MetricEntry, Format) -> String {
        if let Some(f) = self.request_value::<crate::wrapper::FormattingFn>() {
            f.0
        } else {
            self.request_ref::<crate::wrapper::FormattingFn>()
                .map_or(crate::default_formatter as fn(&MetricEntry, Format) -> String, |f| f.0)
        }
    }

    /// Checks whether `metric` is the metric for this entry."""))
ok('c06-inner-let', 'C06', (DYN, DPROV, "let Self { metric, provider } = self;\n        provider.provide(request);\n        metric.provide(request);"))
ok('c06-lazy-match', 'C06', (LAZ, "Lazy::get(self).and_then(|metric| metric.value())", "match self.cell.get() {\n            Some(metric) => metric.value(),\n            None => None,\n        }"))
ok('c06-lazy-q', 'C06', (LAZ, "Lazy::get(self).and_then(|metric| metric.as_any())", "let metric = Lazy::get(self)?;\n        metric.as_any()"))
ok('c06-meta-match', 'C06', (LIB, "self.request_ref::<Metadata>().unwrap_or(&EMPTY)", "match self.request_ref::<Metadata>() {\n            Some(metadata) => metadata,\n            None => &EMPTY,\n        }"))
ok('c06-map-contains', 'C06', (PROV, "        if let Some(element) = self.0.get(&request.0.tag_id()) {\n            Self::provide_dyn(&**element, request);\n        }", "        let tag = request.0.tag_id();\n        match self.0.get(&tag) {\n            Some(element) => Self::provide_dyn(element.as_ref(), request),\n            None => (),\n        }"))
ok('c06-entry-map', 'C06', (LIB, "self.description.as_deref()", "match &self.description {\n            Some(d) => Some(d),\n            None => None,\n        }"))

# ---- C07
MDI = "self.metadata.insert(key.into(), value.into());"
PMI = "self.provider.insert(Metadata::new(self.metadata));"
bug('c07-first-wins', 'C07', (DYN, MDI, "self.metadata.entry(key.into()).or_insert_with(|| value.into());"))
bug('c07-skip-empty', 'C07', (DYN, MDI, "let value = value.into();\n        if !value.is_empty() {\n            self.metadata.insert(key.into(), value);\n        }"))
bug('c07-lower-key', 'C07', (DYN, MDI, "self.metadata.insert(key.into().to_lowercase(), value.into());"))
bug('c07-trim-name', 'C07', (DYN, "            name: name.into(),\n", "            name: name.into().trim().to_string().into(),\n"))
bug('c07-desc-keep', 'C07', (DYN, "self.desc = Some(desc.into());", "self.desc.get_or_insert(desc.into());"))
bug('c07-desc-empty', 'C07', (DYN, "self.desc = Some(desc.into());", "let desc = desc.into();\n        self.desc = if desc.is_empty() { None } else { Some(desc) };"))
bug('c07-entry-desc', 'C07', (DYN, "            description: self.desc,\n        };", "            description: self.desc.or_else(|| Some(Cow::Borrowed(\"\"))),\n        };"))
bug('c07-tag-value', 'C07', (PROV, "TypeId::of::<tags::Ref<tags::MaybeSizedValue<T>>>()\n    }\n\n    fn provide_dyn", "TypeId::of::<tags::Value<T>>()\n    }\n\n    fn provide_dyn"))
bug('c07-provide-keep', 'C07', (PROV, "self.0.insert(Self::typeid_for::<T>(), Box::new(value));", "self.0\n            .entry(Self::typeid_for::<T>())\n            .or_insert_with(|| Box::new(value));"))
bug('c07-metadata-first', 'C07', (DYN, PMI, "let unit = self.metadata.remove(\"unit\");\n        self.provider.insert(Metadata::new(self.metadata));\n        let _ = unit;"))
bug('c07-build-twice', 'C07', (DYN, "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        this.register(entry);\n        this", "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        if !entry.name.is_empty() {\n            this.register(entry);\n        }\n        this"))
bug('c07-pinned-register', 'C07', (DYN, "        (metric, entry)\n    }", "        unsafe {\n            register(MetricEntry {\n                metric: &NullMetric,\n                name: entry.name.clone(),\n                description: None,\n            })\n        };\n        (metric, entry)\n    }"))
bug('c07-clear-provider', 'C07', (DYN, "        self.provider.insert(value);\n", "        if std::mem::size_of::<T>() != 0 {\n            self.provider.insert(value);\n        }\n"))
ok('c07-struct-update', 'C07', (DYN, "        self.desc = Some(desc.into());\n        self", "        Self {\n            desc: Some(desc.into()),\n            ..self\n        }"), (DYN, "pub fn description(mut self", "pub fn description(self"))
ok('c07-let', 'C07', (DYN, MDI, "let (key, value): (String, String) = (key.into(), value.into());\n        let _old = self.metadata.insert(key, value);"))
ok('c07-entry-insert', 'C07', (DYN, MDI, "*self.metadata.entry(key.into()).or_default() = value.into();"))
ok('c07-destructure', 'C07', (DYN, "        self.provider.insert(Metadata::new(self.metadata));\n\n        let metric = DynPinnedMetric::new_v2(metric, self.provider);\n        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        };", "        let MetricBuilder { name, desc, mut provider, metadata } = self;\n        provider.insert(Metadata::from(metadata));\n        let metric = DynPinnedMetric::new_v2(metric, provider);\n        let entry = MetricEntry {\n            metric: &NullMetric,\n            name,\n            description: desc,\n        };"), (DYN, "pub fn build_pinned<T: Metric>(mut self", "pub fn build_pinned<T: Metric>(self"))
ok('c07-entry-direct', 'C07', (DYN, "self.build_pinned(NullMetric).1", "MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        }"))
ok('c07-fmt-direct', 'C07', (DYN, "pub fn formatter(self, formatter: fn(&MetricEntry, Format) -> String) -> Self {\n        self.provide(FormattingFn(formatter))", "pub fn formatter(mut self, formatter: fn(&MetricEntry, Format) -> String) -> Self {\n        self.provider.insert(FormattingFn(formatter));\n        self"))
ok('c07-build-inline', 'C07', (DYN, "        let (metric, entry) = self.build_pinned(metric);\n        DynBoxedMetric::from_pinned(metric, entry)", "        let (pinned, entry) = self.build_pinned(metric);\n        let boxed = DynBoxedMetric {\n            metric: Box::pin(pinned),\n        };\n        boxed.metric.as_ref().register(entry);\n        boxed"))

# ---- C09
bug('c09-empty-static', 'C09', (META, "Impl::Static(map) => map.is_empty(),", "Impl::Static(_) => false,"))
bug('c09-len-off', 'C09', (META, "Impl::Dynamic(map) => map.len(),", "Impl::Dynamic(map) => map.len().min(255),"))
bug('c09-len-const', 'C09', (META, "Impl::Dynamic(map) => map.len(),", "Impl::Dynamic(map) if map.contains_key(\"\") => map.len() - 1,\n            Impl::Dynamic(map) => map.len(),"))
bug('c09-contains-case', 'C09', (META, "Impl::Dynamic(map) => map.contains_key(key),", "Impl::Dynamic(map) => map.contains_key(&key.to_lowercase()),"))
bug('c09-contains-value', 'C09', (META, "Impl::Dynamic(map) => map.contains_key(key),", "Impl::Dynamic(map) => map.get(key).map_or(false, |v| !v.is_empty()),"))
bug('c09-get-empty', 'C09', (META, "map.get(key).map(|s| &**s)", "map.get(key).map(|s| &**s).filter(|s| !s.is_empty())"))
bug('c09-get-trim', 'C09', (META, "map.get(key).map(|s| &**s)", "map.get(key).map(|s| s.trim())"))
bug('c09-get-key', 'C09', (META, "map.get(key).copied()", "map.get_key(key).copied()"))
bug('c09-swap-kv', 'C09', (META, "        (&**key, &**value)\n", "        (&**value, &**key)\n"))
bug('c09-fold-swap', 'C09', (META, "f(acc, (&**k, &**v))", "f(acc, (&**v, &**k))"))
bug('c09-fold-skip', 'C09', (META, "IterImpl::Static(iter) => iter.fold(", "IterImpl::Static(iter) => iter.skip(1).fold("))
bug('c09-nth', 'C09', (META, "IterImpl::Static(iter) => iter.nth(n).map", "IterImpl::Static(iter) => iter.nth(n.saturating_sub(1)).map"))
bug('c09-nth-back', 'C09', (META, "IterImpl::Static(iter) => iter.nth(n).map", "IterImpl::Static(iter) => iter.nth_back(n).map"))
bug('c09-hint', 'C09', (META, "IterImpl::Dynamic(iter) => iter.size_hint(),", "IterImpl::Dynamic(iter) => (iter.len(), Some(iter.len() + 1)),"))
bug('c09-iter-filter', 'C09', (META, "        MetadataIter(match &self.0 {", "        if self.len() == 1 {\n            return MetadataIter(IterImpl::Static(EMPTY_MAP.entries()));\n        }\n        MetadataIter(match &self.0 {"), (META, "#[derive(Clone)]\npub struct Metadata(Impl);", "static EMPTY_MAP: phf::Map<&str, &str> = phf::Map::new();\n\n#[derive(Clone)]\npub struct Metadata(Impl);"))
bug('c09-count', 'C09', (META, "        self.len()\n    }\n}\n\nimpl<'a> Exact", "        self.size_hint().0.saturating_sub(0).max(1)\n    }\n}\n\nimpl<'a> Exact"))
bug('c09-from', 'C09', (META, "    fn from(value: HashMap<String, String>) -> Self {\n        Self(Impl::Dynamic(value))", "    fn from(mut value: HashMap<String, String>) -> Self {\n        value.retain(|k, _| !k.is_empty());\n        Self(Impl::Dynamic(value))"))
ok('c09-empty-len', 'C09', (META, "Impl::Dynamic(map) => map.is_empty(),", "Impl::Dynamic(map) => map.len() == 0,"))
ok('c09-contains-get', 'C09', (META, "        match &self.0 {\n            Impl::Static(map) => map.contains_key(key),\n            Impl::Dynamic(map) => map.contains_key(key),\n        }", "        self.get(key).is_some()"))
ok('c09-empty-via-len', 'C09', (META, "        match &self.0 {\n            Impl::Static(map) => map.is_empty(),\n            Impl::Dynamic(map) => map.is_empty(),\n        }", "        self.len() == 0"))
ok('c09-get-match', 'C09', (META, "map.get(key).map(|s| &**s)", "match map.get(key) {\n                Some(value) => Some(value.as_str()),\n                None => None,\n            }"))
ok('c09-get-asstr', 'C09', (META, "map.get(key).map(|s| &**s)", "map.get(key).map(String::as_str)"))
ok('c09-iter-let', 'C09', (META, "        MetadataIter(match &self.0 {\n            Impl::Static(map) => IterImpl::Static(map.entries()),\n            Impl::Dynamic(map) => IterImpl::Dynamic(map.iter()),\n        })", "        let inner = match self.0 {\n            Impl::Static(map) => IterImpl::Static(map.entries()),\n            Impl::Dynamic(ref map) => IterImpl::Dynamic(map.into_iter()),\n        };\n        MetadataIter(inner)"))
ok('c09-next-question', 'C09', (META, "IterImpl::Dynamic(iter) => iter.next().map(Self::map_iter),", "IterImpl::Dynamic(iter) => {\n                let (key, value) = iter.next()?;\n                Some((key.as_str(), value.as_str()))\n            }"))
ok('c09-no-nth', 'C09', (META, "    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        match &mut self.0 {\n            IterImpl::Static(iter) => iter.nth(n).map(Self::map_entries),\n            IterImpl::Dynamic(iter) => iter.nth(n).map(Self::map_iter),\n        }\n    }\n\n", ""))
ok('c09-fold-loop', 'C09', (META, "IterImpl::Static(iter) => iter.fold(init, move |acc, (k, v)| f(acc, (*k, *v))),", "IterImpl::Static(iter) => {\n                let mut acc = init;\n                for (k, v) in iter {\n                    acc = f(acc, (k, v));\n                }\n                acc\n            }"))
ok('c09-count-impl', 'C09', (META, "        self.len()\n    }\n}\n\nimpl<'a> Exact", "        match self.0 {\n            IterImpl::Static(iter) => iter.count(),\n            IterImpl::Dynamic(iter) => iter.count(),\n        }\n    }\n}\n\nimpl<'a> Exact"))
# ---- C10
bug('c10-no-escape', 'C10', (FMT, "escape_label_value(value)", "value"))
bug('c10-escape-order', 'C10', (FMT, "        .replace('\\\\', \"\\\\\\\\\")\n        .replace('\"', \"\\\\\\\"\")\n", "        .replace('\"', \"\\\\\\\"\")\n        .replace('\\\\', \"\\\\\\\\\")\n"))
bug('c10-simple-labels', 'C10', (FMT, "_ => metric.name().to_string(),", "_ => metric.name().replace('-', \"_\"),"))
bug('c10-skip-empty', 'C10', (FMT, ".iter()\n                .map(", ".iter()\n                .filter(|(_, value)| !value.is_empty())\n                .map("))
bug('c10-swap', 'C10', (FMT, "format!(\"{key}=\\\"{}\\\"\", escape_label_value(value))", "format!(\"{}=\\\"{key}\\\"\", escape_label_value(value))"))
bug('c10-sep', 'C10', (FMT, "metadata.join(\", \")", "metadata.join(\"\")"))
bug('c10-single', 'C10', (FMT, "let metadata = metadata.join(\", \");\n\n            if metadata.is_empty() {", "let single = metadata.len() == 1;\n            let metadata = metadata.join(\", \");\n\n            if metadata.is_empty() || single {"))
bug('c10-dedup', 'C10', (FMT, "let metadata: Vec<String> = metric", "let mut metadata: Vec<String> = metric"), (FMT, "let metadata = metadata.join", "metadata.truncate(16);\n            let metadata = metadata.join"))
bug('c10-trim', 'C10', (FMT, "format!(\"{}{{{metadata}}}\", metric.name())", "format!(\"{}{{{metadata}}}\", metric.name().trim())"))
bug('c10-last', 'C10', (FMT, ".iter()\n                .map(", ".iter()\n                .take(8)\n                .map("))
bug('c10-newline', 'C10', (FMT, "        .replace('\\n', \"\\\\n\")\n", ""))
ok('c10-push', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {
                metric.name().to_string()
            } else {
                format!("{}{{{metadata}}}", metric.name())
            }
""", """            let mut labels = String::new();
            for (key, value) in metric.metadata().iter() {
                if !labels.is_empty() {
                    labels.push_str(", ");
                }
                labels.push_str(key);
                labels.push_str("=\\"");
                labels.push_str(&escape_label_value(value));
                labels.push('"');
            }
            if labels.is_empty() {
                return metric.name().to_string();
            }
            let mut out = metric.name().to_owned();
            out.push('{');
            out += &labels;
            out.push('}');
            out
"""))
ok('c10-write', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {
                metric.name().to_string()
            } else {
                format!("{}{{{metadata}}}", metric.name())
            }
""", """            use std::fmt::Write;
            let metadata = metric.metadata();
            if metadata.is_empty() {
                return metric.name().to_string();
            }
            let mut out = format!("{}{{", metric.name());
            for (i, (key, value)) in metadata.iter().enumerate() {
                if i > 0 {
                    out.push_str(", ");
                }
                let _ = write!(out, "{}=\\"{}\\"", key, escape_label_value(value));
            }
            out.push('}');
            out
"""))
ok('c10-helper', 'C10', (FMT, ".map(|(key, value)| format!(\"{key}=\\\"{}\\\"\", escape_label_value(value)))\n                .collect();\n            let metadata = metadata.join(\", \");", ".map(label)\n                .collect();\n            let metadata = join(&metadata);"),
   (FMT, "/// Escape a label value", "fn label((key, value): (&str, &str)) -> String {\n    let value = escape_label_value(value);\n    format!(\"{}=\\\"{}\\\"\", key, value)\n}\n\nfn join(labels: &[String]) -> String {\n    labels.join(\", \")\n}\n\n/// Escape a label value"))
ok('c10-loop-vec', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {""", """            let mut labels = Vec::with_capacity(metric.metadata().len());
            for (key, value) in metric.metadata() {
                labels.push(format!("{key}=\\"{}\\"", escape_label_value(value)));
            }
            labels.sort();
            let metadata = labels.join(",");

            if labels.is_empty() {"""))
ok('c10-escape-chars', 'C10', (FMT, """    value
        .replace('\\\\', "\\\\\\\\")
        .replace('"', "\\\\\\"")
        .replace('\\n', "\\\\n")
""", """    let mut out = String::with_capacity(value.len());
    for c in value.chars() {
        match c {
            '\\\\' => out.push_str("\\\\\\\\"),
            '"' => out.push_str("\\\\\\""),
            '\\n' => out.push_str("\\\\n"),
            c => out.push(c),
        }
    }
    out
"""))
ok('c10-sep-var', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {
                metric.name().to_string()
            } else {
                format!("{}{{{metadata}}}", metric.name())
            }
""", """            let mut out = metric.name().to_string();
            let mut first = true;
            for (key, value) in metric.metadata().iter() {
                out += if first { "{" } else { ", " };
                first = false;
                out += &format!("{key}=\\"{}\\"", escape_label_value(value));
            }
            if !first {
                out += "}";
            }
            out
"""))
ok('c10-fold', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {""", """            let metadata = metric
                .metadata()
                .iter()
                .fold(String::new(), |mut acc, (key, value)| {
                    if !acc.is_empty() {
                        acc.push_str(", ");
                    }
                    acc.push_str(&format!("{key}=\\"{}\\"", escape_label_value(value)));
                    acc
                });

            if metadata.is_empty() {"""))
bug('c10-forget', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {""", """            let mut metadata = String::new();
            for (key, value) in metric.metadata().iter() {
                let label = format!("{key}=\\"{}\\"", escape_label_value(value));
                if metadata.is_empty() {
                    metadata = label;
                } else if key != "unit" {
                    metadata = format!("{metadata}, {label}");
                }
            }

            if metadata.is_empty() {"""))
ok('c10-rebind', 'C10', (FMT, """            let metadata: Vec<String> = metric
                .metadata()
                .iter()
                .map(|(key, value)| format!("{key}=\\"{}\\"", escape_label_value(value)))
                .collect();
            let metadata = metadata.join(", ");

            if metadata.is_empty() {""", """            let mut metadata = String::new();
            for (key, value) in metric.metadata().iter() {
                let label = format!("{key}=\\"{}\\"", escape_label_value(value));
                if metadata.is_empty() {
                    metadata = label;
                } else {
                    metadata = format!("{metadata}, {label}");
                }
            }

            if metadata.is_empty() {"""))
# ---- C12
bug('c12-race', 'C12', (LAZ, """        this.cell.get_or_init(|| {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })
""", """        if this.cell.get().is_none() {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            let _ = this.cell.set(func());
        }
        this.cell.get().unwrap()
"""))
bug('c12-enabled', 'C12', (LAZ, "Lazy::get(self).map_or(false,", "Lazy::get(self).map_or(true,"))
bug('c12-any-self', 'C12', (LAZ, "Lazy::get(self).and_then(|metric| metric.as_any())", "Some(self)"), (LAZ, "impl<T: Metric, F: Send + 'static> Metric", "impl<T: Metric + 'static, F: Send + 'static> Metric"))
bug('c12-provide-force', 'C12', (LAZ, "impl<T: Metric, F: Send + 'static> Metric", "impl<T: Metric, F: Send + FnOnce() -> T + 'static> Metric"), (LAZ, "        if let Some(metric) = Lazy::get(self) {\n            metric.provide(request);\n        }", "        Lazy::force(self).provide(request);"))
bug('c12-value-deref', 'C12', (LAZ, "impl<T: Metric, F: Send + 'static> Metric", "impl<T: Metric, F: Send + FnOnce() -> T + 'static> Metric"), (LAZ, "Lazy::get(self).and_then(|metric| metric.value())", "(**self).value()"))
bug('c12-snap', 'C12', (SNR, "            match metric.value() {", "            if let Some(lazy) = metric.as_any().and_then(|any| any.downcast_ref::<metriken::LazyCounter>()) {\n                metriken::Lazy::force(lazy);\n            }\n\n            match metric.value() {"))
bug('c12-copyfn', 'C12', (LAZ, "    func: Cell<Option<F>>,", "    func: F,"), (LAZ, "            func: Cell::new(Some(func)),", "            func,"), (LAZ, """            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
""", "            (this.func)()\n"), (LAZ, "impl<T, F: FnOnce() -> T> Lazy<T, F> {", "impl<T, F: Fn() -> T> Lazy<T, F> {"), (LAZ, "impl<T, F: FnOnce() -> T> Deref for", "impl<T, F: Fn() -> T> Deref for"), (LAZ, "impl<T, F: FnOnce() -> T> DerefMut for", "impl<T, F: Fn() -> T> DerefMut for"))
bug('c12-get-init', 'C12', (LAZ, "impl<T: Metric, F: Send + 'static> Metric for", "impl<T: Metric + Default, F: Send + 'static> Metric for"), (LAZ, "Lazy::get(self).and_then(|metric| metric.value())", "self.cell.get_or_init(T::default).value()"))
ok('c12-fn-helper', 'C12', (LAZ, """        this.cell.get_or_init(|| {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })
""", """        this.cell.get_or_init(|| this.run())
"""), (LAZ, "impl<T, F: FnOnce() -> T> Deref for", "impl<T, F: FnOnce() -> T> Lazy<T, F> {\n    fn run(&self) -> T {\n        match self.func.take() {\n            Some(func) => func(),\n            None => panic!(\"Lazy instance has previously been poisoned\"),\n        }\n    }\n}\n\nimpl<T, F: FnOnce() -> T> Deref for"))
ok('c12-fast-path', 'C12', (LAZ, "        this.cell.get_or_init(|| {", "        if let Some(value) = this.cell.get() {\n            return value;\n        }\n        this.cell.get_or_init(|| {"))
ok('c12-deref-inline', 'C12', (LAZ, "        Self::force(self)\n    }", "        let value = Lazy::force(self);\n        value\n    }"))
ok('c12-match', 'C12', (LAZ, "Lazy::get(self).map_or(false, |metric| metric.is_enabled())", "match Self::get(self) {\n            Some(metric) => metric.is_enabled(),\n            None => false,\n        }"))
ok('c12-std', 'C12', (LAZ, "use once_cell::sync::OnceCell;", "use std::sync::OnceLock as OnceCell;"))
# ---- C13
bug('c13-swap-cfg', 'C13', (HIS, "Config::new(grouping_power, max_value_power)", "Config::new(max_value_power, grouping_power)"))
bug('c13-clamp', 'C13', (HIS, "Config::new(grouping_power, max_value_power)", "Config::new(if grouping_power > 12 { 12 } else { grouping_power }, max_value_power)"))
bug('c13-err-default', 'C13', (HIS, "Err(_e) => panic!(\"invalid histogram config\"),", "Err(_e) => match ::histogram::Config::new(7, 64) {\n                Ok(c) => c,\n                Err(_) => panic!(),\n            },"))
bug('c13-swallow', 'C13', (HIS, "self.get_or_init().increment(value)\n", "let _ = self.get_or_init().increment(value);\n        Ok(())\n"))
bug('c13-clamp-value', 'C13', (HIS, "self.get_or_init().increment(value)\n", "self.get_or_init().increment(value.min(u32::MAX as u64))\n"))
bug('c13-skip-zero', 'C13', (HIS, "self.get_or_init().increment(value)\n", "if value == 0 {\n            return Ok(());\n        }\n        self.get_or_init().increment(value)\n"))
bug('c13-load-init', 'C13', (HIS, "self.inner.get().map(|h| h.load())", "Some(self.get_or_init().load())"))
bug('c13-load-drain', 'C13', (HIS, "self.inner.get().map(|h| h.load())", "self.inner.get().map(|h| h.drain())"))
bug('c13-len-lt', 'C13', (HIS, "if data.len() != self.config.total_buckets()", "if data.len() < self.config.total_buckets()"), (HIS, "buckets.copy_from_slice(data);", "buckets.copy_from_slice(&data[..self.config.total_buckets()]);"))
bug('c13-init-first', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n\n        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n", "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        if data.len() != buckets.len() {\n            return Err(Error::IncompatibleParameters);\n        }\n"))
bug('c13-try-write', 'C13', (HIS, "let mut histogram = self.get_or_init().write();\n", "let Some(mut histogram) = self.get_or_init().try_write() else {\n            return Ok(());\n        };\n"))
bug('c13-try-read', 'C13', (HIS, "self.inner.get().map(|h| h.read().clone())", "self.inner.get().and_then(|h| h.try_read().map(|h| h.clone()))"))
bug('c13-halves', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n", "        let mid = data.len() / 2;\n        self.get_or_init().write().as_mut_slice()[..mid].copy_from_slice(&data[..mid]);\n        self.get_or_init().write().as_mut_slice()[mid..].copy_from_slice(&data[mid..]);\n"))
bug('c13-init-cfg', 'C13', (HIS, "::histogram::AtomicHistogram::with_config(&self.config))", "::histogram::AtomicHistogram::with_config(&Config::new(self.config.grouping_power(), 64).unwrap()))"))
bug('c13-double', 'C13', (HIS, "self.get_or_init().increment(value)\n", "let h = self.get_or_init();\n        h.increment(value).or_else(|_| h.increment(u64::MAX >> (64 - self.config.max_value_power())))\n"))
bug('c13-value-none', 'C13', (HIS, "        Some(Value::Other(self))\n    }\n}\n\n/// A histogram that uses free-running non-atomic", "        self.inner.get().map(|h| Value::Other(h))\n    }\n}\n\n/// A histogram that uses free-running non-atomic"))
ok('c13-inline', 'C13', (HIS, "self.get_or_init().increment(value)\n", "let histogram = self.get_or_init();\n        histogram.increment(value)?;\n        Ok(())\n"))
ok('c13-load-match', 'C13', (HIS, "self.inner.get().map(|h| h.load())", "match self.inner.get() {\n            Some(histogram) => Some(histogram.load()),\n            None => None,\n        }"))
ok('c13-load-question', 'C13', (HIS, "self.inner.get().map(|h| h.read().clone())", "let guard = self.inner.get()?.read();\n        Some(guard.clone())"))
ok('c13-eq-branch', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n\n        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n\n        Ok(())", "        let expected = self.config.total_buckets();\n        if expected == data.len() {\n            let mut guard = self.get_or_init().write();\n            guard.as_mut_slice().copy_from_slice(data);\n            drop(guard);\n            Ok(())\n        } else {\n            Err(Error::IncompatibleParameters)\n        }"))
ok('c13-ctor-helper', 'C13', (HIS, "        let config = match ::histogram::Config::new(grouping_power, max_value_power) {\n            Ok(c) => c,\n            Err(_) => panic!(\"invalid histogram config\"),\n        };\n", "        let config = checked(grouping_power, max_value_power);\n"), (HIS, "/// A histogram that uses free-running atomic", "const fn checked(grouping: u8, max: u8) -> Config {\n    if let Ok(config) = Config::new(grouping, max) {\n        config\n    } else {\n        panic!(\"invalid histogram config\")\n    }\n}\n\n/// A histogram that uses free-running atomic"))
ok('c13-rwlock-new', 'C13', (HIS, "::histogram::Histogram::with_config(&self.config).into())", "RwLock::new(Histogram::with_config(&self.config)))"))
ok('c13-loop-copy', 'C13', (HIS, "buckets.copy_from_slice(data);", "for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = *count;\n        }"))

# ---------------------------------------------------------------- C15
CNT = """    pub fn counters(&mut self) -> Vec<Counter> {
        match self {
            Snapshot::V1(s) => std::mem::take(&mut s.counters),
            Snapshot::V2(s) => std::mem::take(&mut s.counters),
        }
    }"""
DUR = """        match self {
            Snapshot::V1(_) => None,
            Snapshot::V2(s) => Some(s.duration),
        }"""
SYT = """        match self {
            Snapshot::V1(s) => s.systemtime,
            Snapshot::V2(s) => s.systemtime,
        }"""
JSN = """        let mut res = serde_json::to_vec(val)?;
        res.push(b'\\n');
        Ok(res)"""
V2F = """    pub systemtime: SystemTime,
    pub duration: Duration,

    #[cfg_attr(feature = "serde", serde(default))]
    pub metadata: HashMap<String, String>,
"""
bug('c15-clone', 'C15', (SNP, "Snapshot::V2(s) => std::mem::take(&mut s.counters)", "Snapshot::V2(s) => s.counters.clone()"))
bug('c15-dur-v1', 'C15', (SNP, "Snapshot::V1(_) => None,", "Snapshot::V1(_) => Some(Duration::ZERO),"))
bug('c15-dur-zero', 'C15', (SNP, "Snapshot::V2(s) => Some(s.duration),", "Snapshot::V2(s) => (!s.duration.is_zero()).then_some(s.duration),"))
bug('c15-dur-trunc', 'C15', (SNP, "Snapshot::V2(s) => Some(s.duration),", "Snapshot::V2(s) => Some(Duration::from_millis(s.duration.as_millis() as u64)),"))
bug('c15-systime', 'C15', (SNP, "Snapshot::V2(s) => s.systemtime,", "Snapshot::V2(s) => s.systemtime + s.duration,"))
bug('c15-default-dur', 'C15', (SNP, "    pub duration: Duration,\n\n", "    #[cfg_attr(feature = \"serde\", serde(default))]\n    pub duration: Duration,\n\n"))
bug('c15-order', 'C15', (SNP, "    V2(SnapshotV2),\n    V1(SnapshotV1),", "    V1(SnapshotV1),\n    V2(SnapshotV2),"))
bug('c15-skip-if', 'C15', (SNP, V2F, V2F.replace('serde(default)', 'serde(default, skip_serializing_if = "HashMap::is_empty")')))
bug('c15-skip-ser', 'C15', (SNP, V2F, V2F.replace('serde(default)', 'serde(default, skip_serializing)')))
bug('c15-rename-de', 'C15', (SNP, V2F, V2F.replace('    pub duration', '    #[cfg_attr(feature = "serde", serde(rename(deserialize = "elapsed"), alias = "window"))]\n    pub duration')))
bug('c15-opt-default', 'C15', (SNP, "derive(serde::Serialize, serde::Deserialize))]\npub struct SnapshotV2", "derive(serde::Serialize, serde::Deserialize), serde(default = \"v2_default\"))]\npub struct SnapshotV2"), (SNP, "#[cfg(feature = \"parquet\")]\npub(crate) struct HashedSnapshot", "fn v2_default() -> SnapshotV2 {\n    SnapshotV2 { systemtime: SystemTime::now(), duration: Duration::ZERO, metadata: HashMap::new(), counters: Vec::new(), gauges: Vec::new(), histograms: Vec::new() }\n}\n\n#[cfg(feature = \"parquet\")]\npub(crate) struct HashedSnapshot"))
bug('c15-json-err', 'C15', (SNP, "serde_json::to_vec(val)?;", "serde_json::to_vec(val).unwrap_or_default();"))
bug('c15-json-null', 'C15', (SNP, "        res.push(b'\\n');", "        if let Some(p) = res.iter().position(|b| *b == 0) {\n            res.truncate(p);\n        }\n        res.push(b'\\n');"))
bug("c15-meta-drop", "C15", (SNP, "            Snapshot::V1(s) => std::mem::take(&mut s.metadata),", "            Snapshot::V1(s) => {\n                s.counters.clear();\n                std::mem::take(&mut s.metadata)\n            }"))
ok('c15-take-shared', 'C15', (SNP, CNT, CNT.replace("        match self {\n            Snapshot::V1(s) => std::mem::take(&mut s.counters),\n            Snapshot::V2(s) => std::mem::take(&mut s.counters),\n        }", "        let counters = match self {\n            Snapshot::V2(s) => &mut s.counters,\n            Snapshot::V1(s) => &mut s.counters,\n        };\n        std::mem::take(counters)")))
ok('c15-replace', 'C15', (SNP, CNT, CNT.replace("std::mem::take(&mut s.counters)", "std::mem::replace(&mut s.counters, Vec::new())")))
ok('c15-drain', 'C15', (SNP, CNT, CNT.replace("std::mem::take(&mut s.counters)", "s.counters.drain(..).collect()")))
ok('c15-iflet', 'C15', (SNP, DUR, "        if let Snapshot::V2(s) = self {\n            return Some(s.duration);\n        }\n        None"), (SNP, SYT, "        let time = match self {\n            Snapshot::V2(s) => &s.systemtime,\n            Snapshot::V1(s) => &s.systemtime,\n        };\n        *time"))
ok('c15-helper', 'C15', (SNP, DUR, "        self.v2().map(|s| s.duration)"), (SNP, "    pub fn systemtime(&self)", "    fn v2(&self) -> Option<&SnapshotV2> {\n        match self {\n            Snapshot::V1(_) => None,\n            Snapshot::V2(s) => Some(s),\n        }\n    }\n\n    pub fn systemtime(&self)"))
ok('c15-json-map', 'C15', (SNP, JSN, "        serde_json::to_vec(val).map(|mut res| {\n            res.push(b'\\n');\n            res\n        })"))
ok('c15-json-match', 'C15', (SNP, JSN, "        match serde_json::to_vec(val) {\n            Ok(mut res) => {\n                res.extend_from_slice(b\"\\n\");\n                Ok(res)\n            }\n            Err(e) => Err(e),\n        }"), (SNP, "        rmp_serde::encode::to_vec(val)", "        let bytes = rmp_serde::encode::to_vec(val)?;\n        Ok(bytes)"))
ok('c15-writer', 'C15', (SNP, JSN, "        let mut res = Vec::new();\n        serde_json::to_writer(&mut res, val)?;\n        res.push(b'\\n');\n        Ok(res)"))
ok('c15-deny', 'C15', (SNP, "derive(serde::Serialize, serde::Deserialize))]\npub struct SnapshotV1", "derive(serde::Serialize, serde::Deserialize), serde(deny_unknown_fields))]\npub struct SnapshotV1"))

# ---------------------------------------------------------------- C14
FILT = """            if !(self.filter)(metric) {
                continue;
            }
"""
MDC = """                        metadata: HashMap::from_iter(
                            metric
                                .metadata()
                                .into_iter()
                                .map(|(k, v)| (k.to_string(), v.to_string())),
                        ),
"""
CARM = """                Some(Value::Counter(value)) => {
                    let mut counter = Counter {
                        name: metric.formatted(metriken::Format::Simple),
                        value,
""" + MDC + """                    };

                    if let Some(description) = metric.description().map(|v| v.to_string()) {
                        counter
                            .metadata
                            .insert("description".to_string(), description);
                    }

                    counters.push(counter);
                }
"""
GARM = CARM.replace('Counter', 'Gauge').replace('counter', 'gauge')
LOADS = """                    let histogram = if let Some(histogram) = other.downcast_ref::<AtomicHistogram>()
                    {
                        histogram.load()
                    } else if let Some(histogram) = other.downcast_ref::<RwLockHistogram>() {
                        histogram.load()
                    } else {
                        None
                    };
"""
bug('c14-skip-zero', 'C14', (SNR, "                Some(Value::Counter(value)) => {", "                Some(Value::Counter(0)) => continue,\n                Some(Value::Counter(value)) => {"))
bug('c14-filter-late', 'C14', (SNR, FILT, ""), (SNR, "                    counters.push(counter);", "                    if (self.filter)(metric) {\n                        counters.push(counter);\n                    }"))
bug('c14-filter-swap', 'C14', (SNR, FILT, "            if metric.description().is_some() && !(self.filter)(metric) {\n                continue;\n            }\n"))
bug('c14-desc-gauge', 'C14', (SNR, """                        gauge
                            .metadata
                            .insert("description".to_string(), description);""", """                        gauge
                            .metadata
                            .insert("unit".to_string(), description);"""))
bug('c14-desc-lost', 'C14', (SNR, """                        if let Some(description) = metric.description().map(|v| v.to_string()) {
                            metadata.insert("description".to_string(), description);
                        }

                        let histogram""", "                        let histogram"))
bug('c14-power', 'C14', (SNR, "histogram.config().max_value_power().to_string()", "histogram.config().grouping_power().to_string()"))
bug('c14-rwlock', 'C14', (SNR, LOADS, LOADS.replace("} else if let Some(histogram) = other.downcast_ref::<RwLockHistogram>() {\n                        histogram.load()\n                    }", "}").replace('RwLock', '')), (SNR, "AtomicHistogram, MetricEntry, RwLockHistogram, Value", "AtomicHistogram, MetricEntry, Value"))
bug('c14-format', 'C14', (SNR, CARM, CARM.replace("Format::Simple", "Format::Prometheus")))
bug('c14-name', 'C14', (SNR, GARM, GARM.replace("metric.formatted(metriken::Format::Simple)", "metric.name().to_string()")))
bug('c14-ts', 'C14', (SNR, "        let ts = SystemTime::now();\n", ""), (SNR, "systemtime: ts,", "systemtime: SystemTime::now(),"))
bug('c14-meta', 'C14', (SNR, "            metadata: self.metadata.clone(),\n            counters", "            metadata: HashMap::new(),\n            counters"))
bug('c14-md-skip', 'C14', (SNR, CARM, CARM.replace(".into_iter()\n", ".into_iter()\n                                .filter(|(k, _)| !k.is_empty())\n")))
bug('c14-md-lower', 'C14', (SNR, GARM, GARM.replace("(k.to_string(), v.to_string())", "(k.to_string(), v.trim().to_string())")))
bug('c14-break', 'C14', (SNR, "                _ => continue,", "                _ => break,"))
bug('c14-dedup', 'C14', (SNR, "        Snapshot::V1(SnapshotV1 {", "        counters.dedup_by(|a, b| a.name == b.name);\n\n        Snapshot::V1(SnapshotV1 {"))
bug('c14-empty-hist', 'C14', (SNR, "                    if let Some(histogram) = histogram {", "                    if let Some(histogram) = histogram.filter(|h| h.as_slice().iter().any(|c| *c != 0)) {"))
bug('c14-default-filter', 'C14', (SNR, "filter: |_| true,", "filter: |m| m.is_enabled(),"))
bug('c14-builder-meta', 'C14', (SNR, "        self.snapshotter.metadata.insert(key, value);", "        self.snapshotter.metadata = HashMap::from([(key, value)]);"))
bug('c14-builder-or', 'C14', (SNR, "        self.snapshotter.metadata.insert(key, value);", "        if !self.snapshotter.metadata.contains_key(&key) {\n            self.snapshotter.metadata.insert(key, value);\n        }"))
bug('c14-value-abs', 'C14', (SNR, GARM, GARM.replace("                        value,\n", "                        value: value.max(0),\n")))
HELP = """
fn labels(metric: &MetricEntry) -> HashMap<String, String> {
    let mut metadata = HashMap::new();
    for (k, v) in metric.metadata() {
        metadata.insert(k.to_string(), v.to_string());
    }
    if let Some(description) = metric.description() {
        metadata.insert("description".to_string(), description.to_string());
    }
    metadata
}

impl Snapshotter {
"""
CARM2 = """                Some(Value::Counter(value)) => counters.push(Counter {
                    name: metric.formatted(metriken::Format::Simple),
                    value,
                    metadata: labels(metric),
                }),
"""
ok('c14-helper', 'C14', (SNR, "\nimpl Snapshotter {\n", HELP), (SNR, CARM, CARM2), (SNR, GARM, CARM2.replace('Counter', 'Gauge').replace('counter', 'gauge')))
ok('c14-filter-iter', 'C14', (SNR, "        for metric in &metriken::metrics() {\n" + FILT, "        for metric in metriken::metrics().iter().filter(|m| (self.filter)(m)) {\n"))
ok('c14-foreach', 'C14', (SNR, FILT, "            let wanted = (self.filter)(metric);\n            if wanted == false {\n                continue;\n            }\n"))
ok('c14-value-first', 'C14', (SNR, FILT, "            let Some(reading) = metric.value() else {\n                continue;\n            };\n" + FILT), (SNR, "            match metric.value() {", "            match Some(reading) {"))
ok('c14-loads', 'C14', (SNR, LOADS, """                    let histogram = other
                        .downcast_ref::<AtomicHistogram>()
                        .and_then(|h| h.load())
                        .or_else(|| other.downcast_ref::<RwLockHistogram>().and_then(|h| h.load()));
"""))
ok('c14-loads2', 'C14', (SNR, LOADS, """                    let histogram = match other.downcast_ref::<RwLockHistogram>() {
                        Some(h) => h.load(),
                        None => other.downcast_ref::<AtomicHistogram>().and_then(|h| h.load()),
                    };
"""))
ok('c14-collect', 'C14', (SNR, CARM, """                Some(Value::Counter(value)) => {
                    let name = metric.formatted(metriken::Format::Simple);
                    let mut metadata: HashMap<String, String> = metric
                        .metadata()
                        .iter()
                        .map(|(k, v)| (k.to_owned(), String::from(v)))
                        .collect();
                    match metric.description() {
                        Some(text) => {
                            metadata.insert(String::from("description"), text.to_owned());
                        }
                        None => {}
                    }
                    counters.push(Counter { name, value, metadata });
                }
"""))
ok('c14-own-first', 'C14', (SNR, "        let ts = SystemTime::now();\n", "        let metadata = self.metadata.clone();\n        let ts = SystemTime::now();\n"), (SNR, "metadata: self.metadata.clone(),\n            counters", "metadata,\n            counters"))
ok('c14-nested', 'C14', (SNR, FILT + "\n            match metric.value() {", "            let value = if (self.filter)(metric) { metric.value() } else { None };\n\n            match value {"))
ok('c14-sort', 'C14', (SNR, "        Snapshot::V1(SnapshotV1 {", "        counters.shrink_to_fit();\n\n        Snapshot::V1(SnapshotV1 {"))

# ---- C16
REM = """    for (k, v) in &metadata {
        if ignore.contains(*k) {
            continue;
        }
        unique_name = unique_name + "/" + v;
    }
"""
ORD = """    for k in ordered {
        if let Some(v) = metadata.get(&k) {
            unique_name = unique_name + "/" + *v;
        }
    }
"""
IDS = """    if let Some(v) = metadata.get("id") {
        unique_name = unique_name + "/" + v;
    }
"""
BT = """    let metadata: BTreeMap<&str, &str> = metadata
        .iter()
        .map(|(k, v)| (k.as_str(), v.as_str()))
        .collect();
"""
IGN = """    let mut ignore: HashSet<&str> =
        ["metric", "unit", "grouping_power", "max_value_power", "id"].into();
    ignore.extend(ordered);
"""
BODY = lambda s: (SNP, IGN + "\n    let mut unique_name = name.to_string();\n\n    // Append name, op, state, and direction in specified order\n" + ORD + "\n    // Append remaining keys in any order to ensure uniqueness\n" + REM + "\n    // Append \"id\", if it exists, to the very end\n" + IDS + "\n    unique_name\n", s)
ok('c16-parts', 'C16', BODY("""    let mut parts: Vec<&str> = vec![name.as_str()];
    for k in ordered {
        if let Some(v) = metadata.get(k) {
            parts.push(v);
        }
    }
    for (k, v) in &metadata {
        if matches!(*k, "metric" | "unit" | "grouping_power" | "max_value_power" | "id") || ordered.contains(k) {
            continue;
        }
        parts.push(v);
    }
    if let Some(v) = metadata.get("id") {
        parts.push(v);
    }
    parts.join("/")
"""))
ok('c16-push', 'C16', (SNP, ORD, """    for k in ordered {
        if let Some(v) = metadata.get(k) {
            unique_name.push('/');
            unique_name.push_str(v);
        }
    }
"""), (SNP, IDS, IDS.replace('unique_name = unique_name + "/" + v;', 'unique_name += "/";\n        unique_name += v;')))
ok('c16-format', 'C16', (SNP, REM, REM.replace('unique_name = unique_name + "/" + v;', 'unique_name = format!("{unique_name}/{v}");')))
ok('c16-extend', 'C16', (SNP, REM, REM.replace('unique_name = unique_name + "/" + v;', 'unique_name.extend(["/", *v]);')))
ok('c16-helper', 'C16', (SNP, "/// Return the metric name: for", """fn append(name: &mut String, part: &str) {
    name.push('/');
    name.push_str(part);
}

/// Return the metric name: for"""), (SNP, REM, REM.replace('unique_name = unique_name + "/" + v;', 'append(&mut unique_name, v);')), (SNP, IDS, IDS.replace('unique_name = unique_name + "/" + v;', 'append(&mut unique_name, v);')))
ok('c16-filter', 'C16', (SNP, REM, """    for (_, v) in metadata.iter().filter(|(k, _)| !ignore.contains(*k)) {
        unique_name = unique_name + "/" + v;
    }
"""))
ok('c16-ifnot', 'C16', (SNP, REM, """    for (k, v) in metadata.iter() {
        if !ignore.contains(k) {
            unique_name.push_str("/");
            unique_name.push_str(v);
        }
    }
"""))
ok('c16-match', 'C16', BODY("""    let mut unique_name = name.to_string();
""" + ORD + """    for (k, v) in &metadata {
        match *k {
            "metric" | "unit" | "grouping_power" | "max_value_power" | "id" => {}
            "name" | "op" | "state" | "direction" => {}
            _ => unique_name = unique_name + "/" + v,
        }
    }
""" + IDS + "    unique_name\n"))
ok('c16-unrolled', 'C16', (SNP, ORD, "".join("""    if let Some(v) = metadata.get("%s") {
        unique_name = unique_name + "/" + v;
    }
""" % k for k in ("name", "op", "state", "direction"))))
ok('c16-filter-map', 'C16', (SNP, ORD, """    for v in ordered.iter().filter_map(|k| metadata.get(k)) {
        unique_name = unique_name + "/" + *v;
    }
"""))
ok('c16-matchget', 'C16', (SNP, """    let Some(name) = metadata.get("metric") else {
        return snapshot_name.to_string();
    };
""", """    if !metadata.contains_key("metric") {
        return snapshot_name.to_owned();
    }
    let name = &metadata["metric"];
"""))
ok('c16-match-let', 'C16', (SNP, """    let Some(name) = metadata.get("metric") else {
        return snapshot_name.to_string();
    };
""", """    let name = match metadata.get("metric") {
        Some(name) => name,
        None => return String::from(snapshot_name),
    };
"""))
ok('c16-sorted-vec', 'C16', (SNP, REM, """    let mut rest: Vec<(&str, &str)> = metadata.iter().map(|(k, v)| (*k, *v)).collect();
    rest.sort();
    for (k, v) in rest {
        if ignore.contains(k) {
            continue;
        }
        unique_name = unique_name + "/" + v;
    }
"""))
ok('c16-sorted-vec2', 'C16', (SNP, BT, ""), (SNP, ORD, ORD.replace('get(&k)', 'get(k)').replace('"/" + *v', '"/" + v')), (SNP, REM, """    let mut rest: Vec<(&String, &String)> = metadata.iter().collect();
    rest.sort();
    for (k, v) in rest {
        if ignore.contains(k.as_str()) {
            continue;
        }
        unique_name = unique_name + "/" + v;
    }
"""))
ok('c16-sorted-keys', 'C16', (SNP, BT, ""), (SNP, ORD, ORD.replace('get(&k)', 'get(k)').replace('"/" + *v', '"/" + v')), (SNP, REM, """    let mut keys: Vec<&String> = metadata.keys().collect();
    keys.sort();
    for k in keys {
        if ignore.contains(k.as_str()) {
            continue;
        }
        if let Some(v) = metadata.get(k) {
            unique_name = unique_name + "/" + v;
        }
    }
"""))
ok('c16-btree-rest', 'C16', (SNP, REM, """    let rest: BTreeMap<&str, &str> = metadata
        .iter()
        .filter(|(k, _)| !ignore.contains(*k))
        .map(|(k, v)| (*k, *v))
        .collect();
    for v in rest.values() {
        unique_name = unique_name + "/" + v;
    }
"""))
ok('c16-const', 'C16', (SNP, IGN, """    const IGNORED: [&str; 5] = ["metric", "unit", "grouping_power", "max_value_power", "id"];
"""), (SNP, "if ignore.contains(*k) {", "if IGNORED.contains(k) || ordered.contains(k) {"))
ok('c16-isfn', 'C16', (SNP, "/// Return the metric name: for", """fn is_ignored(key: &str) -> bool {
    matches!(
        key,
        "metric" | "unit" | "grouping_power" | "max_value_power" | "id" | "name" | "op" | "state" | "direction"
    )
}

/// Return the metric name: for"""), (SNP, IGN, ""), (SNP, "if ignore.contains(*k) {", "if is_ignored(k) {"))
ok('c16-write', 'C16', (SNP, REM, REM.replace('unique_name = unique_name + "/" + v;', 'let _ = std::fmt::Write::write_fmt(&mut unique_name, format_args!("/{}", v));')))
ok('c16-chain', 'C16', BODY("""    let ignore: HashSet<&str> = ["metric", "unit", "grouping_power", "max_value_power", "id", "name", "op", "state", "direction"].into();
    let named = ordered.iter().filter_map(|k| metadata.get(k).copied());
    let rest = metadata.iter().filter(|(k, _)| !ignore.contains(*k)).map(|(_, v)| *v);
    let id = metadata.get("id").copied();
    let mut unique_name = name.to_string();
    for v in named.chain(rest).chain(id) {
        unique_name.push('/');
        unique_name.push_str(v);
    }
    unique_name
"""))
ok('c16-foreach', 'C16', (SNP, REM, """    metadata.iter().for_each(|(k, v)| {
        if !ignore.contains(*k) {
            unique_name.push('/');
            unique_name.push_str(v);
        }
    });
"""))
bug('c16-hash-order', 'C16', (SNP, "let metadata: BTreeMap<&str, &str> = metadata", "let metadata: HashMap<&str, &str> = metadata"))
bug('c16-no-id', 'C16', (SNP, IDS, ""))
bug('c16-id-first', 'C16', (SNP, IDS, ""), (SNP, "    // Append remaining keys in", IDS + "    // Append remaining keys in"))
bug('c16-order', 'C16', (SNP, '["name", "op", "state", "direction"]', '["name", "op", "direction", "state"]'))
bug('c16-missing-ordered', 'C16', (SNP, '["name", "op", "state", "direction"]', '["name", "op", "state"]'))
bug('c16-unit', 'C16', (SNP, '["metric", "unit", "grouping_power", "max_value_power", "id"]', '["metric", "grouping_power", "max_value_power", "id"]'))
bug('c16-unit2', 'C16', (SNP, '["metric", "unit", "grouping_power", "max_value_power", "id"]', '["metric", "units", "grouping_power", "max_value_power", "id"]'))
bug('c16-ignore-more', 'C16', (SNP, '["metric", "unit", "grouping_power", "max_value_power", "id"]', '["metric", "unit", "grouping_power", "max_value_power", "description", "id"]'))
bug('c16-id-twice', 'C16', (SNP, '["metric", "unit", "grouping_power", "max_value_power", "id"]', '["metric", "unit", "grouping_power", "max_value_power"]'))
bug('c16-no-extend', 'C16', (SNP, "    ignore.extend(ordered);\n", ""), (SNP, "let mut ignore", "let ignore"))
bug('c16-sep', 'C16', (SNP, REM, REM.replace('"/"', '":"')))
bug('c16-nosep', 'C16', (SNP, IDS, IDS.replace(' + "/"', '')))
bug('c16-key', 'C16', (SNP, REM, REM.replace('"/" + v', '"/" + k')))
bug('c16-break', 'C16', (SNP, REM, REM.replace('continue', 'break')))
bug('c16-snapname', 'C16', (SNP, "    let mut unique_name = name.to_string();", "    let mut unique_name = snapshot_name.to_string();\n    let _ = name;"))
bug('c16-empty', 'C16', (SNP, REM, REM.replace('unique_name = unique_name', 'if v.is_empty() {\n            continue;\n        }\n        unique_name = unique_name')))
bug('c16-rev', 'C16', (SNP, "for (k, v) in &metadata {", "for (k, v) in metadata.iter().rev() {"))
bug('c16-take', 'C16', (SNP, "for (k, v) in &metadata {", "for (k, v) in metadata.iter().take(16) {"))
bug('c16-lower', 'C16', (SNP, "let mut unique_name = name.to_string();", "let mut unique_name = name.to_lowercase();"))
bug('c16-trim', 'C16', (SNP, "return snapshot_name.to_string();", "return snapshot_name.trim().to_string();"))
bug('c16-len', 'C16', (SNP, "    let metadata: BTreeMap<&str, &str> = metadata\n", "    if metadata.len() == 1 {\n        return snapshot_name.to_string();\n    }\n\n    let metadata: BTreeMap<&str, &str> = metadata\n"))
bug('c16-row-name', 'C16', (SNP, """            snapshot
                .gauges()
                .into_iter()
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),""", """            snapshot
                .gauges()
                .into_iter()
                .map(|v| (v.name.clone(), v)),"""))
bug('c16-schema-name', 'C16', (PAR, "let name = canonicalize_metric_name(&histogram.name, &histogram.metadata);", "let name = histogram.name.clone();"))
bug('c16-schema-md', 'C16', (PAR, "let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);", "let name = canonicalize_metric_name(&gauge.name, &self.metadata);"))
bug('c16-starts', 'C16', (SNP, "if ignore.contains(*k) {", 'if ignore.contains(*k) || k.starts_with("_") {'))

# ---- C17
ok('c17-eq', 'C17', (PAR, """        for h in self.histograms.iter_mut() {
            let histogram = hs.histograms.remove(h).map(|v| v.value);
            if let Some(hist) = histogram {
                match self.options.histogram_type {
                    ParquetHistogramType::Standard => {
                        columns.push(Self::listu64_entry_from_slice(hist.as_slice()))
                    }
                    ParquetHistogramType::Sparse => {
                        let sparse = histogram::SparseHistogram::from(&hist);
                        columns.push(Self::listu64_entry_from_vec(sparse.index));
                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
                    }
                };
            } else {""", """        let is_sparse = self.options.histogram_type == ParquetHistogramType::Sparse;
        for h in &self.histograms {
            if let Some(v) = hs.histograms.remove(h) {
                let hist = v.value;
                if is_sparse {
                    let sparse = histogram::SparseHistogram::from(&hist);
                    columns.push(Self::listu64_entry_from_vec(sparse.index));
                    columns.push(Self::listu64_entry_from_slice(&sparse.count));
                } else {
                    columns.push(Self::listu64_entry_from_slice(hist.as_slice()));
                }
            } else {"""))
HROW = """            let histogram = hs.histograms.remove(h).map(|v| v.value);
            if let Some(hist) = histogram {
                match self.options.histogram_type {
                    ParquetHistogramType::Standard => {
                        columns.push(Self::listu64_entry_from_slice(hist.as_slice()))
                    }
                    ParquetHistogramType::Sparse => {
                        let sparse = histogram::SparseHistogram::from(&hist);
                        columns.push(Self::listu64_entry_from_vec(sparse.index));
                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
                    }
                };
            } else {
                match self.options.histogram_type {
                    ParquetHistogramType::Standard => columns.push(Self::listu64_entry_null()),
                    ParquetHistogramType::Sparse => columns.append(&mut vec![
                        Self::listu64_entry_null(),
                        Self::listu64_entry_null(),
                    ]),
                };
            }
"""
ok('c17-swap-match', 'C17', (PAR, HROW, """            let histogram = hs.histograms.remove(h).map(|v| v.value);
            match (self.options.histogram_type, histogram) {
                (ParquetHistogramType::Standard, Some(hist)) => {
                    columns.push(Self::listu64_entry_from_slice(hist.as_slice()));
                }
                (ParquetHistogramType::Standard, None) => columns.push(Self::listu64_entry_null()),
                (ParquetHistogramType::Sparse, Some(hist)) => {
                    let sparse = histogram::SparseHistogram::from(&hist);
                    columns.push(Self::listu64_entry_from_vec(sparse.index));
                    columns.push(Self::listu64_entry_from_slice(&sparse.count));
                }
                (ParquetHistogramType::Sparse, None) => {
                    for _ in 0..2 {
                        columns.push(Self::listu64_entry_null());
                    }
                }
            }
"""))
ok('c17-helper', 'C17', (PAR, HROW, """            let histogram = hs.histograms.remove(h).map(|v| v.value);
            self.options.add_histogram(&mut columns, histogram);
"""), (PAR, "impl Default for ParquetOptions {", """fn list(v: Option<Vec<Option<u64>>>) -> Arc<dyn Array> {
    Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([v]))
}

impl ParquetOptions {
    fn add_histogram(&self, columns: &mut Vec<Arc<dyn Array>>, histogram: Option<histogram::Histogram>) {
        match self.histogram_type {
            ParquetHistogramType::Standard => {
                columns.push(list(histogram.map(|h| h.as_slice().iter().map(|v| Some(*v)).collect())));
            }
            ParquetHistogramType::Sparse => match histogram {
                Some(h) => {
                    let s = histogram::SparseHistogram::from(&h);
                    columns.push(list(Some(s.index.iter().map(|v| Some(*v as u64)).collect())));
                    columns.push(list(Some(s.count.into_iter().map(Some).collect())));
                }
                None => {
                    columns.push(list(None));
                    columns.push(list(None));
                }
            },
        }
    }
}

impl Default for ParquetOptions {"""), (PAR, "    /// Create a list entry for an arrow lists of u64s from a slice.\n", "    #[allow(dead_code)]\n    /// Create a list entry for an arrow lists of u64s from a slice.\n"), (PAR, "    /// Create a list entry for an arrow lists of u64s from a vector.\n", "    #[allow(dead_code)]\n    /// Create a list entry for an arrow lists of u64s from a vector.\n"), (PAR, "    /// Create a null list entry", "    #[allow(dead_code)]\n    /// Create a null list entry"))
ok('c17-fields', 'C17', (PAR, "        let mut fields: Vec<Field> = Vec::with_capacity(\n            2 + self.counters.len() + self.gauges.len() + (self.histograms.len() * 3),\n        );\n", "        let mut fields: Vec<Field> = Vec::new();\n        let hist_type = options.histogram_type;\n"), (PAR, "            match options.histogram_type {\n                ParquetHistogramType::Standard => {\n                    // merge", "            match hist_type {\n                ParquetHistogramType::Standard => {\n                    // merge"))
CF = """        for (counter, mut metadata) in self.counters.into_iter() {
            // merge metric annotations into the metric metadata
            metadata.insert("metric_type".to_string(), "counter".to_string());

            // add column to schema
            fields
                .push(Field::new(counter.clone(), DataType::UInt64, true).with_metadata(metadata));

            // initialize storage for the counter values
            counters.push(counter);
        }
"""
GF = """        for (gauge, mut metadata) in self.gauges.into_iter() {
            // merge metric annotations into the metric metadata
            metadata.insert("metric_type".to_string(), "gauge".to_string());

            // add column to schema
            fields.push(Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata));

            // initialize storage for the gauge values
            gauges.push(gauge);
        }
"""
ok('c17-field-helper', 'C17', (PAR, CF, """        for (counter, metadata) in self.counters {
            fields.push(metric_field(&counter, DataType::UInt64, metadata, "counter"));
            counters.push(counter);
        }
"""), (PAR, GF, """        for (gauge, metadata) in self.gauges {
            fields.push(metric_field(&gauge, DataType::Int64, metadata, "gauge"));
            gauges.push(gauge);
        }
"""), (PAR, "impl Default for ParquetOptions {", """fn metric_field(name: &str, ty: DataType, mut metadata: HashMap<String, String>, kind: &str) -> Field {
    metadata.insert("metric_type".to_owned(), kind.to_owned());
    Field::new(name, ty, true).with_metadata(metadata)
}

impl Default for ParquetOptions {"""))
ok('c17-names-first', 'C17', (PAR, "        let mut counters = Vec::with_capacity(self.counters.len());\n", "        let counters: Vec<String> = self.counters.keys().cloned().collect();\n"), (PAR, CF, CF.replace('counter.clone()', 'counter').replace("""
            // initialize storage for the counter values
            counters.push(counter);
""", "")))
ok('c17-names-before', 'C17', (PAR, GF, GF.replace("""
            // initialize storage for the gauge values
            gauges.push(gauge);
""", "").replace("            // merge", "            gauges.push(gauge.clone());\n            // merge").replace('gauge.clone(), DataType', 'gauge, DataType')))
ok('c17-extend', 'C17', (PAR, GF, """        fields.extend(self.gauges.into_iter().map(|(gauge, mut metadata)| {
            metadata.insert("metric_type".to_string(), "gauge".to_string());
            let field = Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata);
            gauges.push(gauge);
            field
        }));
"""))
ok('c17-entry', 'C17', (PAR, "            self.gauges.entry(name).or_insert(gauge.metadata);\n", """            if !self.gauges.contains_key(&name) {
                self.gauges.insert(name, gauge.metadata);
            }
"""))
ok('c17-entry2', 'C17', (PAR, "            self.counters.entry(name).or_insert(counter.metadata);\n", "            self.counters.entry(name).or_insert_with(|| counter.metadata.clone());\n"))
ok('c17-push-order', 'C17', (PAR, """        let (counters, gauges, histograms) = (
            snapshot.counters(),
            snapshot.gauges(),
            snapshot.histograms(),
        );

        for counter in counters {
""", """        let histograms = snapshot.histograms();
        let gauges = snapshot.gauges();

        for counter in snapshot.counters() {
"""))
ok('c17-record', 'C17', (PAR, """        for counter in counters {
            let name = canonicalize_metric_name(&counter.name, &counter.metadata);
            self.counters.entry(name).or_insert(counter.metadata);
        }

        for gauge in gauges {
            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);
            self.gauges.entry(name).or_insert(gauge.metadata);
        }
""", """        for counter in counters {
            record(&mut self.counters, &counter.name, counter.metadata);
        }

        for gauge in gauges {
            record(&mut self.gauges, &gauge.name, gauge.metadata);
        }
"""), (PAR, "impl Default for ParquetOptions {", """fn record(
    known: &mut BTreeMap<String, HashMap<String, String>>,
    name: &str,
    metadata: HashMap<String, String>,
) {
    let key = canonicalize_metric_name(name, &metadata);
    known.entry(key).or_insert(metadata);
}

impl Default for ParquetOptions {"""))
bug('c17-order', 'C17', (PAR, "        for gauge in self.gauges.iter_mut() {\n            columns.push(Arc::new(Int64Array::from(vec![hs\n                .gauges\n                .remove(gauge)\n                .map(|v| v.value)])));\n        }\n\n", ""), (PAR, "        let batch = RecordBatch", "        for gauge in self.gauges.iter_mut() {\n            columns.push(Arc::new(Int64Array::from(vec![hs\n                .gauges\n                .remove(gauge)\n                .map(|v| v.value)])));\n        }\n\n        let batch = RecordBatch"))
bug('c17-nonnull', 'C17', (PAR, "Field::new(gauge.clone(), DataType::Int64, true)", "Field::new(gauge.clone(), DataType::Int64, false)"))
bug('c17-type', 'C17', (PAR, "Field::new(gauge.clone(), DataType::Int64, true)", "Field::new(gauge.clone(), DataType::UInt64, true)"))
bug('c17-one-null', 'C17', (PAR, """                    ParquetHistogramType::Sparse => columns.append(&mut vec![
                        Self::listu64_entry_null(),
                        Self::listu64_entry_null(),
                    ]),
""", """                    ParquetHistogramType::Sparse => columns.append(&mut vec![
                        Self::listu64_entry_null(),
                    ]),
"""))
bug('c17-counts-first', 'C17', (PAR, """                        columns.push(Self::listu64_entry_from_vec(sparse.index));
                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
""", """                        columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));
                        columns.push(Self::listu64_entry_from_vec(sparse.index));
"""))
bug('c17-last-wins-gone', 'C17', (PAR, "            self.counters.entry(name).or_insert(counter.metadata);\n", "            if !counter.metadata.is_empty() || self.rows == 0 {\n                self.counters.entry(name).or_insert(counter.metadata);\n            }\n"))
bug('c17-skip-rows', 'C17', (PAR, "        for histogram in histograms {\n", "        for histogram in histograms {\n            if histogram.value.as_slice().iter().all(|x| *x == 0) {\n                continue;\n            }\n"))
bug('c17-wrong-map', 'C17', (PAR, "            self.gauges.entry(name).or_insert(gauge.metadata);\n", "            self.counters.entry(name).or_insert(gauge.metadata);\n"))
bug('c17-label', 'C17', (PAR, 'metadata.insert("metric_type".to_string(), "gauge".to_string());', 'metadata.insert("metric_type".to_string(), "counter".to_string());'))
bug('c17-nolabel', 'C17', (PAR, 'metadata.insert("metric_type".to_string(), "gauge".to_string());', 'metadata.entry("metric_type".to_string()).or_insert("gauge".to_string());'))
bug('c17-nomd', 'C17', (PAR, "Field::new(gauge.clone(), DataType::Int64, true).with_metadata(metadata)", "Field::new(gauge.clone(), DataType::Int64, true)"))
bug('c17-names-sorted', 'C17', (PAR, "        // Merge metadata and convert to vector format\n", "        gauges.reverse();\n        // Merge metadata and convert to vector format\n"))
bug('c17-names-dedup', 'C17', (PAR, "            gauges.push(gauge);\n", "            if gauges.last() != Some(&gauge) && !counters.contains(&gauge) {\n                gauges.push(gauge);\n            }\n"))
bug('c17-schema-name', 'C17', (PAR, 'format!("{histogram}:buckets")', 'format!("{}:buckets", histogram.to_lowercase())'))
bug('c17-hist-opt', 'C17', (PAR, "            options,\n            schema,\n", "            options: ParquetOptions::new().max_batch_size(options.max_batch_size),\n            schema,\n"))
bug('c17-drop-empty', 'C17', (PAR, "            if let Some(hist) = histogram {\n", "            if let Some(hist) = histogram.filter(|h| h.as_slice().len() > 0 || true) {\n                if hist.as_slice().is_empty() {\n                    continue;\n                }\n"))
bug('c17-batch-noschema', 'C17', (PAR, "let batch = RecordBatch::try_new(self.schema.clone(), columns)?;", "let batch = RecordBatch::try_from_iter(self.schema.fields().iter().map(|f| f.name().clone()).zip(columns))?;"))
bug('c17-counts-null', 'C17', (PAR, """                            format!("{histogram}:bucket_counts"),
                            DataType::new_list(DataType::UInt64, true),
                            true,
""", """                            format!("{histogram}:bucket_counts"),
                            DataType::new_list(DataType::UInt64, true),
                            false,
"""))
bug('c17-gauge-list', 'C17', (PAR, "            gauges,\n            histograms,\n        })\n    }\n}\n\npub struct", "            gauges: counters_tail(gauges),\n            histograms,\n        })\n    }\n}\n\nfn counters_tail(mut v: Vec<String>) -> Vec<String> {\n    v.dedup_by(|a, b| a.eq_ignore_ascii_case(b));\n    v\n}\n\npub struct"))

# ---- C18
ok('c18-get', 'C18', (PAR, """            columns.push(Arc::new(UInt64Array::from(vec![hs
                .counters
                .remove(counter)
                .map(|v| v.value)])));
""", """            let value = hs.counters.get(counter.as_str()).map(|c| c.value);
            columns.push(Arc::new(UInt64Array::from(vec![value])));
"""))
ok('c18-match', 'C18', (PAR, """            columns.push(Arc::new(Int64Array::from(vec![hs
                .gauges
                .remove(gauge)
                .map(|v| v.value)])));
""", """            let value = match hs.gauges.remove(gauge) {
                Some(g) => Some(g.value),
                None => None,
            };
            let column: Int64Array = std::iter::once(value).collect();
            columns.push(Arc::new(column));
"""))
ok('c18-iflet', 'C18', (PAR, """            columns.push(Arc::new(Int64Array::from(vec![hs
                .gauges
                .remove(gauge)
                .map(|v| v.value)])));
""", """            if let Some(g) = hs.gauges.get(gauge) {
                columns.push(Arc::new(Int64Array::from(vec![Some(g.value)])));
            } else {
                columns.push(Arc::new(Int64Array::from(vec![None])));
            }
"""))
ok('c18-hashed-loop', 'C18', (SNP, """        let counters: HashMap<String, Counter> = HashMap::from_iter(
            snapshot
                .counters()
                .into_iter()
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),
        );
""", """        let mut counters = HashMap::new();
        for counter in snapshot.counters() {
            let key = canonicalize_metric_name(&counter.name, &counter.metadata);
            counters.insert(key, counter);
        }
"""))
ok('c18-hashed-collect', 'C18', (SNP, """        let gauges: HashMap<String, Gauge> = HashMap::from_iter(
            snapshot
                .gauges()
                .into_iter()
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),
        );
""", """        let gauges: HashMap<String, Gauge> = snapshot
            .gauges()
            .into_iter()
            .map(|g| {
                let name = canonicalize_metric_name(&g.name, &g.metadata);
                (name, g)
            })
            .collect();
"""))
ok('c18-question', 'C18', (PAR, "        self.writer.write(&batch)\n", "        self.writer.write(&batch)?;\n        Ok(())\n"))
ok('c18-index', 'C18', (PAR, "        for gauge in self.gauges.iter_mut() {", "        for gauge in &self.gauges {"))
ok('c18-schema-var', 'C18', (PAR, "RecordBatch::try_new(self.schema.clone(), columns)?", "RecordBatch::try_new(Arc::clone(&self.schema), columns)?"))
ok('c18-match-batch', 'C18', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;\n        self.writer.write(&batch)\n", """        let batch = match RecordBatch::try_new(self.schema.clone(), columns) {
            Ok(batch) => batch,
            Err(e) => return Err(e.into()),
        };
        self.writer.write(&batch)
"""))
ok('c18-dur-match', 'C18', (SNP, "let duration: Option<u64> = snapshot.duration().map(|x| x.as_nanos() as u64);", """let duration: Option<u64> = match snapshot.duration() {
            Some(d) => Some(d.as_nanos() as u64),
            None => None,
        };"""))
ok('c18-ts-match', 'C18', (SNP, """        let ts: u64 = snapshot
            .systemtime()
            .duration_since(SystemTime::UNIX_EPOCH)
            .expect("System Clock is earlier than 1970; needs reset")
            .as_nanos() as u64;
""", """        let since = match snapshot.systemtime().duration_since(SystemTime::UNIX_EPOCH) {
            Ok(since) => since,
            Err(_) => panic!("System Clock is earlier than 1970; needs reset"),
        };
        let ts = since.as_nanos() as u64;
"""))
ok('c18-extend', 'C18', (PAR, """        for counter in self.counters.iter_mut() {
            columns.push(Arc::new(UInt64Array::from(vec![hs
                .counters
                .remove(counter)
                .map(|v| v.value)])));
        }
""", """        columns.extend(self.counters.iter().map(|c| {
            Arc::new(UInt64Array::from(vec![hs.counters.remove(c).map(|v| v.value)])) as Arc<dyn Array>
        }));
"""))
ok('c18-vecinit', 'C18', (PAR, """        let mut columns: Vec<Arc<dyn Array>> = Vec::with_capacity(self.schema.fields().len());

        let mut hs: HashedSnapshot = HashedSnapshot::from(snapshot);

        // Create a single element column for the timestamp and duration
        columns.push(Arc::new(UInt64Array::from(vec![hs.ts])));
        columns.push(Arc::new(UInt64Array::from(vec![hs.duration])));
""", """        let mut hs: HashedSnapshot = snapshot.into();

        let mut columns: Vec<Arc<dyn Array>> = vec![
            Arc::new(UInt64Array::from(vec![hs.ts])),
            Arc::new(UInt64Array::from(vec![hs.duration])),
        ];
"""))
ok('c18-listhelper', 'C18', (PAR, """        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(
            v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>(),
        )]))
""", """        let mut values = Vec::with_capacity(v.len());
        for x in v {
            values.push(Some(*x));
        }
        Arc::new(ListArray::from_iter_primitive::<UInt64Type, _, _>([Some(values)]))
"""))
bug('c18-millis', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64)", "snapshot.duration().map(|x| x.as_micros() as u64)"))
bug('c18-subsec', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64)", "snapshot.duration().map(|x| x.subsec_nanos() as u64)"))
bug('c18-zero-dur', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64)", "Some(snapshot.duration().map(|x| x.as_nanos() as u64).unwrap_or(0))"))
bug('c18-dur-zero-null', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64)", "snapshot.duration().filter(|x| !x.is_zero()).map(|x| x.as_nanos() as u64)"))
bug('c18-zero-null', 'C18', (PAR, "                .gauges\n                .remove(gauge)\n                .map(|v| v.value)", "                .gauges\n                .remove(gauge)\n                .map(|v| v.value)\n                .filter(|v| *v != i64::MIN)"))
bug('c18-default', 'C18', (PAR, "                .counters\n                .remove(counter)\n                .map(|v| v.value)", "                .counters\n                .remove(counter)\n                .map(|v| v.value)\n                .or(Some(0))"))
bug('c18-u32', 'C18', (PAR, "Some(x as u64)", "Some(x as u32 as u64)"))
bug('c18-u16', 'C18', (PAR, "Some(x as u64)", "Some(x as u16 as u64)"))
bug('c18-trunc', 'C18', (PAR, "v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>()", "v.iter().take(1 << 12).map(|x| Some(*x)).collect::<Vec<Option<u64>>>()"))
bug('c18-zero-to-null', 'C18', (PAR, "v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>()", "v.iter().map(|x| Some(*x).filter(|x| *x != u64::MAX)).collect::<Vec<Option<u64>>>()"))
bug('c18-filter', 'C18', (PAR, "v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>()", "v.iter().filter(|x| **x < u64::MAX).map(|x| Some(*x)).collect::<Vec<Option<u64>>>()"))
bug('c18-mask', 'C18', (PAR, "v.iter().map(|x| Some(*x)).collect::<Vec<Option<u64>>>()", "v.iter().map(|x| Some(*x & (u64::MAX >> 1))).collect::<Vec<Option<u64>>>()"))
bug('c18-write-ignored', 'C18', (PAR, "        self.writer.write(&batch)\n", "        if batch.num_columns() > 2 {\n            self.writer.write(&batch)?;\n        }\n        Ok(())\n"))
bug('c18-write-twice', 'C18', (PAR, "        self.writer.write(&batch)\n", "        if self.writer.in_progress_rows() == self.options.max_batch_size {\n            self.writer.write(&batch)?;\n        }\n        self.writer.write(&batch)\n"))
bug('c18-err-swallow', 'C18', (PAR, "        self.writer.write(&batch)\n", "        let _ = self.writer.write(&batch);\n        Ok(())\n"))
bug('c18-first-wins', 'C18', (SNP, """        let counters: HashMap<String, Counter> = HashMap::from_iter(
            snapshot
                .counters()
                .into_iter()
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),
        );
""", """        let counters: HashMap<String, Counter> = HashMap::from_iter(
            snapshot
                .counters()
                .into_iter()
                .filter(|v| v.value > 0)
                .map(|v| (canonicalize_metric_name(&v.name, &v.metadata), v)),
        );
"""))
bug('c18-skip1', 'C18', (SNP, """            snapshot
                .histograms()
                .into_iter()
""", """            snapshot
                .histograms()
                .into_iter()
                .take(u16::MAX as usize)
"""))
bug('c18-ts-local', 'C18', (SNP, """        let ts: u64 = snapshot
            .systemtime()
""", """        let ts: u64 = SystemTime::now()
"""))
bug('c18-ts-secs', 'C18', (SNP, """needs reset")
            .as_nanos() as u64;""", """needs reset")
            .as_secs() * 1_000_000_000;"""))
bug('c18-gauge-abs', 'C18', (PAR, "                .remove(gauge)\n                .map(|v| v.value)", "                .remove(gauge)\n                .map(|v| v.value.saturating_abs())"))
bug('c18-stale', 'C18', (PAR, "            columns.push(Arc::new(Int64Array::from(vec![hs\n                .gauges\n                .remove(gauge)\n                .map(|v| v.value)])));\n", "            let g = hs.gauges.remove(gauge);\n            if g.is_none() {\n                gauge.push(' ');\n                gauge.pop();\n            }\n            columns.push(Arc::new(Int64Array::from(vec![g.map(|v| v.value)])));\n            if hs.gauges.is_empty() {\n                gauge.make_ascii_lowercase();\n            }\n"))
bug('c18-wrong-kind', 'C18', (PAR, """            columns.push(Arc::new(Int64Array::from(vec![hs
                .gauges
                .remove(gauge)
                .map(|v| v.value)])));
""", """            columns.push(Arc::new(Int64Array::from(vec![hs
                .gauges
                .remove(gauge)
                .map(|v| v.value)
                .or_else(|| hs.counters.remove(gauge).map(|v| v.value as i64))])));
"""))
bug('c18-empty-null', 'C18', (PAR, "            let histogram = hs.histograms.remove(h).map(|v| v.value);\n", "            let histogram = hs.histograms.remove(h).map(|v| v.value).filter(|h| h.as_slice().iter().any(|x| *x > 0));\n"))
ok('c16-any', 'C16', (SNP, "if ignore.contains(*k) {", "if ignore.iter().any(|i| i == k) {"))
ok('c16-any-array', 'C16', (SNP, IGN, """    let ignore = ["metric", "unit", "grouping_power", "max_value_power", "id"];
"""), (SNP, "if ignore.contains(*k) {", "if ignore.iter().chain(ordered.iter()).any(|i| i == k) {"))
ok('c16-log', 'C16', (SNP, REM, REM.replace('unique_name = unique_name + "/" + v;', 'if v.is_empty() {\n            eprintln!("empty");\n        }\n        unique_name = unique_name + "/" + v;')))
bug('c16-any-array-bug', 'C16', (SNP, IGN, """    let ignore = ["metric", "unit", "grouping_power", "id"];
"""), (SNP, "if ignore.contains(*k) {", "if ignore.iter().chain(ordered.iter()).any(|i| i == k) {"))

# ---- C19
P1 = """        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            schema.push(s);
        }
"""
P2 = """        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = rmp_serde::from_read(&mut reader)
                .map_err(|x| ParquetError::External(Box::new(x)))?;
            writer.push(s)?;
        }
"""
SK = "        reader.seek(SeekFrom::Start(start))?;\n"
FIN = "        let metadata = writer.finalize()?;\n\n        Ok(metadata.num_rows)\n"
MRG = "        self.metadata.extend(metadata.unwrap_or_default());\n"
SNM = """        let snap_metadata = snapshot.metadata();
        if self.metadata.is_empty() && !snap_metadata.is_empty() {
            self.metadata = snap_metadata;
        }
"""
SMK = """        let schema_metadata: Option<Vec<KeyValue>> = if self.metadata.is_empty() {
            None
        } else {
            Some(
                self.metadata
                    .into_iter()
                    .map(|(key, value)| KeyValue {
                        key,
                        value: Some(value),
                    })
                    .collect(),
            )
        };
"""
bug('c19-while-let', 'C19', (CNV, P1, """        while let Ok(s) = rmp_serde::from_read::<_, Snapshot>(&mut reader) {
            schema.push(s);
        }
"""))
bug('c19-while-let2', 'C19', (CNV, P2, """        while let Ok(s) = rmp_serde::from_read::<_, Snapshot>(&mut reader) {
            writer.push(s)?;
        }
"""))
bug('c19-break-err', 'C19', (CNV, P2, """        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = match rmp_serde::from_read(&mut reader) {
                Ok(s) => s,
                Err(_) => break,
            };
            writer.push(s)?;
        }
"""))
bug('c19-eof-ok', 'C19', (CNV, P1, """        while !reader.fill_buf()?.is_empty() {
            let s: Snapshot = match rmp_serde::from_read(&mut reader) {
                Ok(s) => s,
                Err(rmp_serde::decode::Error::InvalidMarkerRead(_)) => break,
                Err(x) => return Err(ParquetError::External(Box::new(x))),
            };
            schema.push(s);
        }
"""))
bug('c19-fill-unwrap-or', 'C19', (CNV, P1, P1.replace("while !reader.fill_buf()?.is_empty()", "while reader.fill_buf().map(|b| !b.is_empty()).unwrap_or(false)")))
bug('c19-fill-unwrap', 'C19', (CNV, P2, P2.replace("while !reader.fill_buf()?.is_empty()", "while !reader.fill_buf().unwrap().is_empty()")))
bug('c19-decode-expect', 'C19', (CNV, P2, P2.replace("                .map_err(|x| ParquetError::External(Box::new(x)))?;", "                .expect(\"decoded in the first pass\");")))
bug('c19-push-ignored', 'C19', (CNV, P2, P2.replace("writer.push(s)?;", "let _ = writer.push(s);")))
bug('c19-push-ok', 'C19', (CNV, P2, P2.replace("writer.push(s)?;", "if writer.push(s).is_err() {\n                break;\n            }")))
bug('c19-push-unwrap', 'C19', (CNV, P2, P2.replace("writer.push(s)?;", "writer.push(s).unwrap();")))
bug('c19-rewind', 'C19', (CNV, SK, "        let _ = start;\n        reader.seek(SeekFrom::Start(0))?;\n"))
bug('c19-rewind2', 'C19', (CNV, SK, "        let _ = start;\n        reader.rewind()?;\n"))
bug('c19-start-late', 'C19', (CNV, "        let start = reader.stream_position()?;\n", ""), (CNV, P1, "        let mut start = 0;\n" + P1.replace("            schema.push(s);", "            schema.push(s);\n            if start == 0 {\n                start = reader.stream_position()?;\n            }")))
bug('c19-seek-ignored', 'C19', (CNV, SK, "        let _ = reader.seek(SeekFrom::Start(start));\n"))
bug('c19-get-mut-seek', 'C19', (CNV, SK, "        reader.get_mut().seek(SeekFrom::Start(start))?;\n"))
bug('c19-rows-counted', 'C19', (CNV, P2, "        let mut rows = 0;\n" + P2.replace("writer.push(s)?;", "writer.push(s)?;\n            rows += 1;")), (CNV, FIN, "        writer.finalize()?;\n\n        Ok(rows)\n"))
bug('c19-no-close', 'C19', (CNV, FIN, "        let _ = writer;\n        Ok(0)\n"))
bug('c19-close-ignored', 'C19', (CNV, FIN, "        Ok(writer.finalize().map(|m| m.num_rows).unwrap_or_default())\n"))
bug('c19-skip-empty', 'C19', (CNV, P2, P2.replace("            writer.push(s)?;", "            let probe = s.clone();\n            if s.systemtime() == std::time::SystemTime::UNIX_EPOCH {\n                continue;\n            }\n            writer.push(probe)?;")))
bug('c19-skip-first', 'C19', (CNV, P2, "        let mut n = 0u64;\n" + P2.replace("            writer.push(s)?;", "            n += 1;\n            if n % 1_000_000 == 0 {\n                continue;\n            }\n            writer.push(s)?;")))
bug('c19-schema-limit', 'C19', (CNV, P1, "        let mut left = 4096;\n" + P1.replace("            schema.push(s);", "            schema.push(s);\n            left -= 1;\n            if left == 0 {\n                break;\n            }")))
bug('c19-no-meta', 'C19', (CNV, "self.parquet_options, Some(self.metadata))?", "self.parquet_options, None)?"))
bug('c19-def-opts', 'C19', (CNV, "schema.finalize(writer, self.parquet_options, ", "schema.finalize(writer, ParquetOptions::new(), "))
bug('c19-skip-byte', 'C19', (CNV, P1, P1.replace("            let s: Snapshot", "            if reader.buffer().first() == Some(&0xc0) {\n                reader.consume(1);\n                continue;\n            }\n            let s: Snapshot")))
bug('c19-merge-under', 'C19', (PAR, MRG, """        for (k, v) in metadata.unwrap_or_default() {
            self.metadata.entry(k).or_insert(v);
        }
"""))
bug('c19-merge-over', 'C19', (PAR, MRG, """        let mut given = metadata.unwrap_or_default();
        given.extend(self.metadata);
        self.metadata = given;
"""))
bug('c19-merge-replace', 'C19', (PAR, MRG, """        if let Some(metadata) = metadata {
            self.metadata = metadata;
        }
"""))
bug('c19-merge-nonempty', 'C19', (PAR, MRG, """        if self.metadata.is_empty() {
            self.metadata.extend(metadata.unwrap_or_default());
        }
"""))
bug('c19-merge-late', 'C19', (PAR, MRG + SMK, SMK.replace("            Some(\n                self.metadata\n", "            self.metadata.extend(metadata.unwrap_or_default());\n            Some(\n                self.metadata\n")))
bug('c19-kv-filter', 'C19', (PAR, SMK, SMK.replace("                    .into_iter()\n", "                    .into_iter()\n                    .filter(|(_, v)| !v.is_empty())\n")))
bug('c19-kv-none', 'C19', (PAR, SMK, SMK.replace("value: Some(value),", "value: Some(value).filter(|v| !v.is_empty()),")))
bug('c19-kv-swap', 'C19', (PAR, SMK, SMK.replace("key,\n                        value: Some(value),", "key: value,\n                        value: Some(key),")))
bug('c19-no-props', 'C19', (PAR, "ArrowWriter::try_new(writer, schema.clone(), Some(props))?", "ArrowWriter::try_new(writer, schema.clone(), Some(props).filter(|_| schema.fields().len() > 2))?"))
bug('c19-no-kv', 'C19', (PAR, "            .set_key_value_metadata(schema_metadata)\n", ""), (PAR, SMK, SMK + "        let _ = schema_metadata;\n"))
bug('c19-snap-meta-last', 'C19', (PAR, SNM, SNM.replace("self.metadata.is_empty() && !snap", "!snap")))
bug('c19-snap-meta-first', 'C19', (PAR, SNM, SNM.replace("self.metadata.is_empty() && !snap_metadata.is_empty()", "self.rows == 0 && !snap_metadata.is_empty()")))
bug('c19-snap-meta-v', 'C19', (PAR, SNM, SNM.replace("!snap_metadata.is_empty()", "snap_metadata.len() > 1")))
bug('c19-write-ignored', 'C19', (PAR, "        self.writer.write(&batch)\n", "        let _ = self.writer.write(&batch);\n        Ok(())\n"))
bug('c19-write-unwrap', 'C19', (PAR, "        self.writer.write(&batch)\n", "        self.writer.write(&batch).unwrap();\n        Ok(())\n"))
bug('c19-batch-unwrap', 'C19', (PAR, "RecordBatch::try_new(self.schema.clone(), columns)?;", "RecordBatch::try_new(self.schema.clone(), columns).unwrap();"))
bug('c19-batch-skip', 'C19', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;\n        self.writer.write(&batch)\n", "        if let Ok(batch) = RecordBatch::try_new(self.schema.clone(), columns) {\n            self.writer.write(&batch)?;\n        }\n        Ok(())\n"))
bug('c19-path-swallow', 'C19', (CNV, "self.convert_file_handle(File::open(input)?, File::create(output)?)", "match File::open(input) {\n            Ok(f) => self.convert_file_handle(f, File::create(output)?),\n            Err(_) => Ok(0),\n        }"))
bug('c19-path-unwrap', 'C19', (CNV, "File::create(output)?)", "File::create(output).unwrap())"))
bug('c19-meta-entry', 'C19', (CNV, "        self.metadata.insert(key, value);\n", "        if !value.is_empty() {\n            self.metadata.insert(key, value);\n        }\n"))
bug('c19-opt-batch', 'C19', (PAR, ".set_max_row_group_size(options.max_batch_size)", ".set_max_row_group_size(options.max_batch_size.max(1024))"))
bug('c19-eof-v1', 'C19', (CNV, P2, P2.replace("            writer.push(s)?;", "            let stop = matches!(s, Snapshot::V1(_)) && reader.buffer().is_empty();\n            writer.push(s)?;\n            if stop {\n                break;\n            }")))

ok('c19-loop', 'C19', (CNV, P1, """        loop {
            if reader.fill_buf()?.is_empty() {
                break;
            }
            let s: Snapshot = match rmp_serde::from_read(&mut reader) {
                Ok(s) => s,
                Err(x) => return Err(ParquetError::External(Box::new(x))),
            };
            schema.push(s);
        }
"""))
ok('c19-helper', 'C19', (CNV, P1, """        while let Some(s) = next_snapshot(&mut reader)? {
            schema.push(s);
        }
"""), (CNV, P2, """        while let Some(s) = next_snapshot(&mut reader)? {
            writer.push(s)?;
        }
"""), (CNV, "/// A struct for converting", """fn next_snapshot(reader: &mut impl BufRead) -> Result<Option<Snapshot>, ParquetError> {
    if reader.fill_buf()?.is_empty() {
        return Ok(None);
    }
    rmp_serde::from_read(reader)
        .map(Some)
        .map_err(|x| ParquetError::External(Box::new(x)))
}

/// A struct for converting"""))
ok('c19-each-helper', 'C19', (CNV, P1, "        for_each_snapshot(&mut reader, |s| {\n            schema.push(s);\n            Ok(())\n        })?;\n"), (CNV, P2, "        for_each_snapshot(&mut reader, |s| writer.push(s))?;\n"), (CNV, "/// A struct for converting", """fn for_each_snapshot<R: BufRead>(
    reader: &mut R,
    mut f: impl FnMut(Snapshot) -> Result<(), ParquetError>,
) -> Result<(), ParquetError> {
    while !reader.fill_buf()?.is_empty() {
        let s: Snapshot = rmp_serde::from_read(&mut *reader)
            .map_err(|x| ParquetError::External(Box::new(x)))?;
        f(s)?;
    }
    Ok(())
}

/// A struct for converting"""))
ok('c19-len', 'C19', (CNV, P2, P2.replace("while !reader.fill_buf()?.is_empty()", "while reader.fill_buf()?.len() > 0")))
ok('c19-seek-first', 'C19', (CNV, SK, ""), (CNV, "        let mut writer = schema.finalize(", SK + "        let mut writer = schema.finalize("))
ok('c19-map-rows', 'C19', (CNV, FIN, "        writer.finalize().map(|metadata| metadata.num_rows)\n"))
ok('c19-match-rows', 'C19', (CNV, FIN, "        match writer.finalize() {\n            Ok(metadata) => Ok(metadata.num_rows),\n            Err(e) => Err(e),\n        }\n"))
ok('c19-destructure', 'C19', (CNV, "        let mut reader = BufReader::new(reader);\n", "        let Self {\n            parquet_options,\n            metadata: given,\n        } = self;\n        let mut reader = BufReader::new(reader);\n"), (CNV, "self.parquet_options, Some(self.metadata))?", "parquet_options, Some(given))?"))
ok('c19-meta-none', 'C19', (CNV, "self.parquet_options, Some(self.metadata))?", "self.parquet_options, Some(self.metadata).filter(|m| !m.is_empty()))?"))
ok('c19-map-err-fn', 'C19', (CNV, P1, P1.replace("|x| ParquetError::External(Box::new(x))", "decode_error")), (CNV, P2, P2.replace("|x| ParquetError::External(Box::new(x))", "decode_error")), (CNV, "/// A struct for converting", "fn decode_error(x: rmp_serde::decode::Error) -> ParquetError {\n    ParquetError::External(Box::new(x))\n}\n\n/// A struct for converting"))
ok('c19-map-err-loop', 'C19', (CNV, P1, P1.replace(".map_err(|x| ParquetError::External(Box::new(x)))?", ".map_err(|x| ParquetError::General(x.to_string()))?")))
ok('c19-merge-loop', 'C19', (PAR, MRG, """        if let Some(metadata) = metadata {
            for (k, v) in metadata {
                self.metadata.insert(k, v);
            }
        }
"""))
ok('c19-merge-if', 'C19', (PAR, MRG, """        if let Some(metadata) = metadata {
            self.metadata.extend(metadata);
        }
"""))
ok('c19-merge-flat', 'C19', (PAR, MRG, "        self.metadata.extend(metadata.into_iter().flatten());\n"))
ok('c19-kv-loop', 'C19', (PAR, SMK, """        let mut pairs = Vec::with_capacity(self.metadata.len());
        for (key, value) in self.metadata {
            pairs.push(KeyValue {
                key,
                value: Some(value),
            });
        }
        let schema_metadata: Option<Vec<KeyValue>> = Some(pairs).filter(|p| !p.is_empty());
"""))
ok('c19-kv-new', 'C19', (PAR, SMK, SMK.replace("KeyValue {\n                        key,\n                        value: Some(value),\n                    }", "KeyValue::new(key, value)")))
ok('c19-kv-match', 'C19', (PAR, SMK, SMK.replace("if self.metadata.is_empty() {\n            None", "if self.metadata.len() == 0 {\n            None")))
ok('c19-kv-helper', 'C19', (PAR, SMK, "        let schema_metadata = key_values(self.metadata);\n"), (PAR, "pub struct ParquetWriter<W", "fn key_values(metadata: HashMap<String, String>) -> Option<Vec<KeyValue>> {\n    if metadata.is_empty() {\n        return None;\n    }\n    Some(\n        metadata\n            .into_iter()\n            .map(|(key, value)| KeyValue {\n                key,\n                value: Some(value),\n            })\n            .collect(),\n    )\n}\n\npub struct ParquetWriter<W"))
ok('c19-snap-meta', 'C19', (PAR, SNM, """        if self.metadata.is_empty() {
            self.metadata = snapshot.metadata();
        }
"""))
ok('c19-snap-meta2', 'C19', (PAR, SNM, """        let snap_metadata = snapshot.metadata();
        if !self.metadata.is_empty() || snap_metadata.is_empty() {
            self.rows += 1;
            return;
        }
        self.metadata = snap_metadata;
"""))
ok('c19-snap-extend', 'C19', (PAR, SNM, """        let snap_metadata = snapshot.metadata();
        if self.metadata.is_empty() {
            self.metadata.extend(snap_metadata);
        }
"""))
ok('c19-write-q', 'C19', (PAR, "        self.writer.write(&batch)\n", "        self.writer.write(&batch)?;\n        Ok(())\n"))
ok('c19-batch-match', 'C19', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;\n        self.writer.write(&batch)\n", "        match RecordBatch::try_new(self.schema.clone(), columns) {\n            Ok(batch) => self.writer.write(&batch),\n            Err(e) => Err(e.into()),\n        }\n"))
ok('c19-batch-and-then', 'C19', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;\n        self.writer.write(&batch)\n", "        RecordBatch::try_new(Arc::clone(&self.schema), columns)\n            .map_err(ParquetError::from)\n            .and_then(|batch| self.writer.write(&batch))\n"))
ok('c19-path-lets', 'C19', (CNV, "        self.convert_file_handle(File::open(input)?, File::create(output)?)\n", "        let input = File::open(input.as_ref())?;\n        let output = File::create(output.as_ref())?;\n        self.convert_file_handle(input, output)\n"))
ok('c19-props-var', 'C19', (PAR, """        let props = WriterProperties::builder()
            .set_compression(options.compression.inner)
            .set_key_value_metadata(schema_metadata)
            .set_max_row_group_size(options.max_batch_size)
            .build();
""", """        let mut builder = WriterProperties::builder();
        builder = builder.set_max_row_group_size(options.max_batch_size);
        builder = builder.set_compression(options.compression.inner);
        if schema_metadata.is_some() {
            builder = builder.set_key_value_metadata(schema_metadata);
        }
        let props = builder.build();
"""))
ok('c19-open-helper', 'C19', (CNV, "        let mut reader = BufReader::new(reader);\n", "        let mut reader = BufReader::with_capacity(1 << 16, reader);\n"))
ok('c19-count-log', 'C19', (CNV, P2, "        let mut rows = 0u64;\n" + P2.replace("writer.push(s)?;", "writer.push(s)?;\n            rows += 1;")), (CNV, FIN, FIN.replace("        Ok(", "        debug_assert_eq!(metadata.num_rows as u64, rows);\n        Ok(")))
ok('c19-meta-chain', 'C19', (CNV, "        self.metadata.insert(key, value);\n        self\n", "        let mut metadata = self.metadata;\n        metadata.insert(key, value);\n        Self { metadata, ..self }\n"), (CNV, "pub fn metadata(mut self,", "pub fn metadata(self,"))
bug('c19-gap-unwrap', 'C19', (PAR, "                .remove(gauge)\n                .map(|v| v.value)", "                .remove(gauge)\n                .map(|v| v.value)\n                .or_else(|| Some(None::<i64>.expect(\"gauge\")))"))
bug('c19-hist-expect', 'C19', (PAR, "            let histogram = hs.histograms.remove(h).map(|v| v.value);\n", "            let histogram = Some(hs.histograms.remove(h).expect(\"declared\").value);\n"))
bug('c19-meta-expect', 'C19', (PAR, MRG, "        self.metadata.extend(metadata.expect(\"metadata\"));\n"))

# ---- C20
RNEW = "unsafe { &mut *(erased as *mut dyn Erased<'a> as *mut Request<'a>) }"
FREF = "unsafe { &*(metric as *const M as *const Self) }"
LSYNC = "unsafe impl<T, F: Send> Sync for Lazy<T, F> where OnceCell<T>: Sync {}"
MGET = "unsafe { &*self.metric }"
DC1 = "Some(unsafe { &*(self as *const Self).cast::<TaggedOption<'a, I>>() })"
FORCE = """        this.cell.get_or_init(|| {
            let func = this
                .func
                .take()
                .unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })
"""
bug('c20-wrapper-repr', 'C20', (WRAP, "#[repr(transparent)]\n", ""))
bug('c20-wrapper-reprc-field', 'C20', (WRAP, "#[repr(transparent)]\n", "#[repr(C)]\n"), (WRAP, "    metric: M,\n    provider", "    pad: (),\n    metric: M,\n    provider"), (WRAP, "            metric,\n", "            pad: (),\n            metric,\n"))
bug('c20-request-repr', 'C20', (PROV, "#[repr(transparent)]\npub struct Request", "pub struct Request"))
bug('c20-lazy-no-send-f', 'C20', (LAZ, LSYNC, LSYNC.replace("F: Send", "F")), (LAZ, "F: Send + 'static> Metric", "F: Send + 'static> Metric"))
bug('c20-lazy-no-oncecell', 'C20', (LAZ, LSYNC, "unsafe impl<T, F: Send> Sync for Lazy<T, F> {}"))
bug('c20-lazy-t-sync-only', 'C20', (LAZ, LSYNC, "unsafe impl<T: Sync, F: Send> Sync for Lazy<T, F> {}"))
bug('c20-lazy-f-sync', 'C20', (LAZ, LSYNC, "unsafe impl<T: Send + Sync, F: Sync> Sync for Lazy<T, F> {}"), (LAZ, "F: Send + 'static> Metric", "F: Send + Sync + 'static> Metric"))
bug('c20-lazy-send', 'C20', (LAZ, LSYNC, LSYNC + "\nunsafe impl<T, F> Send for Lazy<T, F> {}"))
bug('c20-lazy-func-unsafecell', 'C20', (LAZ, "    pub fn get(this: &Self) -> Option<&T> {\n", "    /// Whether the value can still be initialized.\n    pub fn pending(this: &Self) -> bool {\n        let func = this.func.take();\n        let pending = func.is_some();\n        this.func.set(func);\n        pending\n    }\n\n    pub fn get(this: &Self) -> Option<&T> {\n"))
bug('c20-lazy-take-first', 'C20', (LAZ, FORCE, """        let func = this.func.take();
        this.cell.get_or_init(|| {
            let func = func.unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));

            func()
        })
"""))
bug('c20-lazy-unsafecell-get', 'C20', (LAZ, "        this.cell.get()\n", "        Some(unsafe { this.cell.get_unchecked() })\n"))
bug('c20-lazy-deref-unchecked', 'C20', (LAZ, "        Self::force(self);\n        self.cell.get_mut().unwrap_or_else(|| unreachable!())", "        match self.cell.get_mut() {\n            Some(value) => value,\n            None => unsafe { std::hint::unreachable_unchecked() },\n        }"))
bug('c20-metric-not-sync', 'C20', (LIB, "pub trait Metric: Send + Sync + 'static {", "pub trait Metric: Send + 'static {"))
bug('c20-metric-not-send', 'C20', (LIB, "pub trait Metric: Send + Sync + 'static {", "pub trait Metric: Sync + 'static {"), (LAZ, "impl<T: Metric, F: Send + 'static> Metric", "impl<T: Metric + Send, F: Send + 'static> Metric"))
bug('c20-entry-from-ref', 'C20', (LIB, "    pub fn name(&self) -> &str {\n", "    /// An entry for a metric that is not registered.\n    pub fn for_metric(metric: &dyn Metric, name: impl Into<Cow<'static, str>>) -> Self {\n        let metric = metric as *const dyn Metric;\n        Self { metric, name: name.into(), description: None }\n    }\n\n    pub fn name(&self) -> &str {\n"))
ok('c20-entry-static-ref', 'C20', (LIB, "    pub fn name(&self) -> &str {\n", "    /// An entry for a metric that is not registered.\n    pub fn for_metric(metric: &'static dyn Metric, name: impl Into<Cow<'static, str>>) -> Self {\n        let metric = metric as *const dyn Metric;\n        Self { metric, name: name.into(), description: None }\n    }\n\n    pub fn name(&self) -> &str {\n"))
ok('c20-entry-rename', 'C20', (LIB, "    pub fn name(&self) -> &str {\n", "    /// Replace the name of this entry.\n    pub fn renamed(mut self, name: impl Into<Cow<'static, str>>) -> Self {\n        self.name = name.into();\n        self\n    }\n\n    pub fn name(&self) -> &str {\n"))
bug('c20-provide-not-sync', 'C20', (PROV, "Any + Send + Sync + 'static {", "Any + 'static {"), (PROV, "impl<T: Any + Send + Sync> Provide", "impl<T: Any> Provide"), (DYN, "pub fn provide<T: Send + Sync + 'static>", "pub fn provide<T: 'static>"), (PROV, "impl UnwindSafe for ProviderMap {}", "unsafe impl Send for ProviderMap {}\nunsafe impl Sync for ProviderMap {}\nimpl UnwindSafe for ProviderMap {}"))
bug('c20-provider-sync-claim', 'C20', (PROV, "Any + Send + Sync + 'static {", "Any + Send + 'static {"), (PROV, "impl<T: Any + Send + Sync> Provide", "impl<T: Any + Send> Provide"), (DYN, "pub fn provide<T: Send + Sync + 'static>", "pub fn provide<T: Send + 'static>"), (PROV, "impl UnwindSafe for ProviderMap {}", "unsafe impl Sync for ProviderMap {}\nimpl UnwindSafe for ProviderMap {}"))
bug('c20-no-tag-check', 'C20', (PROV, DC1, DC1.replace("Some(", "Some(").replace("self as", "self as")), (PROV, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: We just", "        if self.tag_id() != TypeId::of::<()>() {\n            // SAFETY: We just"))
bug('c20-metrics-send', 'C20', (MET, "impl Metrics {\n", "// The registry lives for the whole program.\nunsafe impl Send for Metrics {}\n\nimpl Metrics {\n"))
bug('c20-request-static', 'C20', (LIB, "    pub fn metric(&self) -> &dyn Metric {", "    pub fn metric(&self) -> &'static dyn Metric {"))
bug('c20-from-ref-static', 'C20', (WRAP, "pub const fn from_ref(metric: &M) -> &Self {", "pub const fn from_ref(metric: &M) -> &'static Self {"))
bug('c20-from-ref-mut', 'C20', (WRAP, "    pub const fn from_ref(metric: &M) -> &Self {", "    #[allow(clippy::mut_from_ref, invalid_reference_casting)]\n    pub fn from_ref_mut(metric: &M) -> &mut Self {\n        let ptr = metric as *const M as *mut M as *mut Self;\n        unsafe { &mut *ptr }\n    }\n\n    pub const fn from_ref(metric: &M) -> &Self {"))
bug('c20-register-unpinned', 'C20', (DYN, "pub fn register(self: Pin<&Self>, mut entry: MetricEntry) {", "pub fn register(&self, mut entry: MetricEntry) {"))
bug('c20-static-mut', 'C20', (DYN, "static REGISTRY: RwLock<DynMetricsRegistry> = const_rwlock(DynMetricsRegistry::new());", "static REGISTRY: RwLock<DynMetricsRegistry> = const_rwlock(DynMetricsRegistry::new());\n\nstatic mut REGISTRATIONS: usize = 0;"), (DYN, "pub(crate) unsafe fn register(entry: MetricEntry) {\n", "pub(crate) unsafe fn register(entry: MetricEntry) {\n    REGISTRATIONS += 1;\n"))
bug('c20-entry-metric-mut', 'C20', (LIB, "    pub fn name(&self) -> &str {\n", "    /// Replace the metric behind this entry.\n    pub fn with_metric(mut self, metric: *const dyn Metric) -> Self {\n        self.metric = metric;\n        self\n    }\n\n    pub fn name(&self) -> &str {\n"))
bug('c20-name-static', 'C20', (LIB, "    pub fn name(&self) -> &str {\n        &self.name", "    pub fn name(&self) -> &'static str {\n        unsafe { std::mem::transmute::<&str, &'static str>(&self.name) }"))
bug('c20-name-raw', 'C20', (LIB, "    pub fn name(&self) -> &str {\n        &self.name", "    pub fn name(&self) -> &'static str {\n        let name: *const str = &*self.name;\n        unsafe { &*name }"))
bug('c20-fmt-unchecked', 'C20', (FMT, "pub fn default_formatter", "#[allow(dead_code)]\npub fn from_bytes(b: &[u8]) -> &str {\n    unsafe { std::str::from_utf8_unchecked(b) }\n}\n\npub fn default_formatter"))
bug('c20-iter-unchecked', 'C20', (MET, "        self.sm.nth(n).or_else(|| self.dm.nth(n - len))", "        if n <= len && len > 0 {\n            let entry = unsafe { self.sm.as_slice().get_unchecked(n) };\n            self.sm.nth(n);\n            return Some(entry);\n        }\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))"))
bug('c20-counter-ptr', 'C20', (CTR, CADD, "{\n            let raw = self.0.as_ptr();\n            unsafe {\n                let old = *raw;\n                *raw = old.wrapping_add(value);\n                old\n            }\n        }"))
bug('c20-nonatomic-load', 'C20', (CTR, "self.0.load(Ordering::Relaxed)", "unsafe { *self.0.as_ptr() }"))
bug('c20-hist-ptr-read', 'C20', (LIB, MGET, "unsafe { &**std::ptr::addr_of!(self.metric).cast::<*const crate::null::NullMetric>() }"))
ok('c20-wrapper-cast', 'C20', (WRAP, FREF, "unsafe { &*std::ptr::from_ref(metric).cast::<Self>() }"))
ok('c20-wrapper-let', 'C20', (WRAP, FREF, "let ptr: *const M = metric;\n        let ptr = ptr as *const Self;\n        // SAFETY: the wrapper is transparent\n        unsafe { &*ptr }"))
ok('c20-request-let', 'C20', (PROV, RNEW, "let erased: *mut (dyn Erased<'a> + 'a) = erased;\n        let request = erased as *mut Request<'a>;\n        unsafe { &mut *request }"))
ok('c20-metric-let', 'C20', (LIB, MGET, "let metric = self.metric;\n        // SAFETY: entries outlive their metric\n        unsafe { &*metric }"))
ok('c20-metric-asref', 'C20', (LIB, MGET, "unsafe { self.metric.as_ref() }.expect(\"metric pointers are never null\")"))
ok('c20-downcast-helper', 'C20', (PROV, DC1, "Some(unsafe { self.downcast_unchecked::<I>() })"), (PROV, "impl<'a> dyn Erased<'a> + 'a {\n", "impl<'a> dyn Erased<'a> + 'a {\n    /// # Safety\n    /// The tag of self must be that of `I`.\n    unsafe fn downcast_unchecked<I: tags::Type<'a>>(&self) -> &TaggedOption<'a, I> {\n        unsafe { &*(self as *const Self).cast::<TaggedOption<'a, I>>() }\n    }\n\n"))
ok('c20-lazy-bounds', 'C20', (LAZ, LSYNC, "unsafe impl<T: Send + Sync, F: Send> Sync for Lazy<T, F> {}"))
ok('c20-lazy-where', 'C20', (LAZ, LSYNC, "unsafe impl<T, F> Sync for Lazy<T, F>\nwhere\n    OnceCell<T>: Sync,\n    F: Send,\n{\n}"))
ok('c20-lazy-send-f', 'C20', (LAZ, LSYNC, LSYNC + "\nunsafe impl<T: Send, F: Send> Send for Lazy<T, F> {}"))
ok('c20-lazy-take-helper', 'C20', (LAZ, FORCE, "        this.cell.get_or_init(|| Self::init(&this.func))\n"), (LAZ, "impl<T, F: FnOnce() -> T> Lazy<T, F> {\n", "impl<T, F: FnOnce() -> T> Lazy<T, F> {\n    fn init(func: &Cell<Option<F>>) -> T {\n        match func.take() {\n            Some(func) => func(),\n            None => panic!(\"Lazy instance has previously been poisoned\"),\n        }\n    }\n\n"))
ok('c20-lazy-init-method', 'C20', (LAZ, FORCE, "        this.cell.get_or_init(|| this.init())\n"), (LAZ, "impl<T, F: FnOnce() -> T> Lazy<T, F> {\n", "impl<T, F: FnOnce() -> T> Lazy<T, F> {\n    fn init(&self) -> T {\n        let func = self\n            .func\n            .take()\n            .unwrap_or_else(|| panic!(\"Lazy instance has previously been poisoned\"));\n        func()\n    }\n\n"))
ok('c20-lazy-closure-var', 'C20', (LAZ, FORCE, """        let init = || {
            let func = this.func.take();
            let func = func.unwrap_or_else(|| panic!("Lazy instance has previously been poisoned"));
            func()
        };
        this.cell.get_or_init(init)
"""))
ok('c20-lazy-deref-unchecked', 'C20', (LAZ, "        self.cell.get_mut().unwrap_or_else(|| unreachable!())", "        match self.cell.get_mut() {\n            Some(value) => value,\n            None => unreachable!(),\n        }"))
ok('c20-provide-bounds', 'C20', (PROV, "pub(crate) trait Provide: Any + Send + Sync + 'static {", "pub(crate) trait Provide: Send + Sync + Any {"))
ok('c20-statics', 'C20', (DYN, "static REGISTRY: RwLock<DynMetricsRegistry> = const_rwlock(DynMetricsRegistry::new());", "static REGISTRY: RwLock<DynMetricsRegistry> = RwLock::new(DynMetricsRegistry::new());"))
ok('c20-register-block', 'C20', (DYN, "        unsafe { register(entry) };", "        // SAFETY: see above.\n        unsafe {\n            register(entry);\n        }"))
ok('c20-impl-order', 'C20', (LIB, "unsafe impl Send for MetricEntry {}\nunsafe impl Sync for MetricEntry {}", "// SAFETY: metrics are Send + Sync.\nunsafe impl Sync for MetricEntry {}\nunsafe impl Send for MetricEntry {}"))

# ---- C08
ATT = """            let key = entry.name.to_literal();
            let value = entry.value;
"""
NMD = """    let name: syn::Expr = args.name.map(|name| name.value).unwrap_or_else(|| {
        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());
        parse_quote!(#name)
    });
"""
DSC = """    let description: syn::Expr = args
        .description
        .map(|SingleArg { value, .. }| parse_quote!(Some(#value)))
        .unwrap_or_else(|| parse_quote!(None));
"""
MIN = """        match self.0.entry(entry.name.value()) {
            Entry::Occupied(_) => {
                return Err(syn::Error::new_spanned(
                    &entry.name,
                    format_args!("duplicate metadata entry `{}`", entry.name.value()),
                ))
            }
            Entry::Vacant(vacant) => {
                vacant.insert(entry);
            }
        }

        Ok(())
"""
IOD = """        match self {
            None => {
                *self = Some(arg);
                Ok(())
            }
            Some(_) => Err(syn::Error::new_spanned(
                arg.ident.clone(),
                format_args!("unexpected duplicate argument `{}`", arg.ident),
            )),
        }
"""
UNK = """                _ => {
                    return Err(syn::Error::new(
                        arg.span(),
                        format!("unknown argument `{arg}`"),
                    ))
                }
"""
EXPR = """        #private::declare_metric_v1! {
            metric: #static_name,
            name: #name,
            description: #description,
            metadata: { #( #attrs, )* },
            formatter: #formatter,
        };

        #static_expr
"""
PV = """                    request
                        .provide_ref(&__METADATA)
                        .provide_value($crate::export::FormattingFn($formatter));
"""
bug('c08-name-lower', 'C08', (DER, "&static_name.to_string(), static_name.span()", "&static_name.to_string().to_lowercase(), static_name.span()"))
bug('c08-name-unless-desc', 'C08', (DER, NMD, NMD.replace("args.name.map(|name| name.value)", "args.name.filter(|_| args.formatter.is_none() || args.krate.is_none()).map(|name| name.value)")), (DER, "fn crate_path(&mut self) -> Path {\n        match self.krate.take() {\n            Some(krate) => krate.value,", "fn crate_path(&mut self) -> Path {\n        match &self.krate {\n            Some(krate) => krate.value.clone(),"))
bug('c08-desc-empty', 'C08', (DER, DSC, DSC.replace(".description\n", ".description\n        .filter(|arg| !matches!(&arg.value, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Str(s) if s.value().is_empty())))\n")))
bug('c08-desc-name', 'C08', (DER, ".unwrap_or_else(|| parse_quote!(None));", ".unwrap_or_else(|| parse_quote!(Some(#name)));"))
bug('c08-dup-meta-last', 'C08', (DER, MIN, "        self.0.insert(entry.name.value(), entry);\n\n        Ok(())\n"), (DER, "use std::collections::btree_map::Entry;\n", ""))
bug('c08-dup-meta-equal', 'C08', (DER, "            Entry::Occupied(_) => {\n                return Err", "            Entry::Occupied(old) if quote!(#old).to_string().is_empty() => {}\n            Entry::Occupied(_) => {\n                return Err".replace("quote!(#old).to_string().is_empty()", "{\n                let (a, b) = (&old.get().value, &entry.value);\n                quote!(#a).to_string() == quote!(#b).to_string()\n            }")))
ok('c08-dup-meta-kind', 'C08', (DER, "        match self.0.entry(entry.name.value()) {", "        let key = match &entry.name {\n            crate::args::MetadataName::Ident(ident) => ident.to_string(),\n            crate::args::MetadataName::String(string) => format!(\"{:?}\", string.value()),\n        };\n        match self.0.entry(key) {"))
bug('c08-dup-meta-ci', 'C08', (DER, "        match self.0.entry(entry.name.value()) {", "        match self.0.entry(entry.name.value().to_lowercase()) {"))
bug('c08-dup-arg-last', 'C08', (ARGS, IOD, "        *self = Some(arg);\n        Ok(())\n"))
bug('c08-dup-meta-merge', 'C08', (DER, '"metadata" => args.metadata.insert_or_duplicate(input.parse()?)?,', '"metadata" => {\n                    let more: SingleArg<Metadata> = input.parse()?;\n                    match &mut args.metadata {\n                        Some(data) => data.value.entries.extend(more.value.entries),\n                        None => args.metadata = Some(more),\n                    }\n                }'))
bug('c08-dup-crate', 'C08', (DER, "args.krate.insert_or_duplicate(krate)?", "args.krate = Some(krate)"))
bug('c08-unknown-skip', 'C08', (DER, UNK, """                "help" => args.description.insert_or_duplicate(input.parse()?)?,
""" + UNK))
bug('c08-unknown-ignored', 'C08', (DER, UNK, """                _ if !first && arg.to_string().starts_with('_') => {
                    let _: SingleArg<Expr> = input.parse()?;
                }
""" + UNK))
bug('c08-swap-kv', 'C08', (DER, "quote!( #key => #value )", "quote!( #value => #key )"))
bug('c08-meta-drop-empty', 'C08', (DER, "        .into_values()\n        .map(|entry| {", "        .into_values()\n        .filter(|entry| !entry.name.value().is_empty())\n        .map(|entry| {"))
bug('c08-meta-take', 'C08', (DER, "        .into_values()\n        .map(|entry| {", "        .into_values()\n        .take(16)\n        .map(|entry| {"))
bug('c08-meta-ident-dash', 'C08', (ARGS, "Self::Ident(ident) => syn::LitStr::new(&ident.to_string(), ident.span()),", "Self::Ident(ident) => syn::LitStr::new(&ident.to_string().replace('_', \"-\"), ident.span()),"))
bug('c08-formatter-default', 'C08', (DER, "        .formatter\n        .map(|fmt| fmt.value)", "        .formatter\n        .map(|fmt| fmt.value)\n        .filter(|fmt| matches!(fmt, Expr::Path(_)))"))
bug('c08-double-entry', 'C08', (DER, EXPR, EXPR.replace("        #static_expr\n", "        #private::declare_metric_v1! {\n            metric: #static_name,\n            name: #name,\n            description: #description,\n            metadata: { },\n            formatter: #formatter,\n        };\n\n        #static_expr\n")))
bug('c08-no-entry-underscore', 'C08', (DER, "    item.expr = Box::new(parse_quote! {{", "    if static_name.to_string().starts_with('_') {\n        return Ok(quote! { #item });\n    }\n\n    item.expr = Box::new(parse_quote! {{"))
bug('c08-init-default', 'C08', (DER, "        #static_expr\n    }});", "        <_>::from(#static_expr)\n    }});".replace("<_>::from(#static_expr)", "#static_expr")), (DER, "    let static_expr = &item.expr;\n", "    let ty = &item.ty;\n    let static_expr: &syn::Expr = &match &*item.expr {\n        Expr::Call(call) if call.args.len() > 1 => {\n            let (f, a) = (&call.func, call.args.iter().rev());\n            parse_quote!({ let v: #ty = #f(#(#a),*); v })\n        }\n        other => other.clone(),\n    };\n"))
bug('c08-provide-no-meta', 'C08', (LIB, PV, "                    request.provide_value($crate::export::FormattingFn($formatter));\n"))
bug('c08-provide-fmt-ref', 'C08', (LIB, PV, PV.replace("FormattingFn($formatter)", "FormattingFn($crate::default_formatter)")))
bug('c08-provide-cond', 'C08', (LIB, PV, "                    if request.would_be_satisfied_by_ref_of::<$crate::Metadata>() {\n                        request.provide_ref(&__METADATA);\n                    } else if !__METADATA_MAP.is_empty() {\n                        request.provide_value($crate::export::FormattingFn($formatter));\n                    }\n"))
bug('c08-entry-desc', 'C08', (LIB, "                $description,\n            );", "                match $description { Some(d) if $name.len() < 64 => Some(d), _ => None },\n            );"))
bug('c08-entry-v1-name', 'C08', (LIB, "name: Cow::Borrowed(name),", "name: Cow::Borrowed(match description { Some(d) => d, None => name }),"))
bug('c08-trailing-lost', 'C08', (DER, "        for entry in data.value.entries {", "        for entry in data.value.entries.into_iter().rev().skip_while(|e| matches!(&e.value, Expr::Lit(l) if matches!(&l.lit, syn::Lit::Str(s) if s.value().is_empty()))) {"))
bug('c08-first-only-crate', 'C08', (DER, "        while !input.is_empty() {\n            if !first {", "        while !input.is_empty() {\n            if args.krate.is_some() && args.metadata.is_some() && args.name.is_none() && args.description.is_none() {\n                input.step(|c| Ok(((), syn::buffer::Cursor::empty())))?;\n                break;\n            }\n            if !first {".replace("input.step(|c| Ok(((), syn::buffer::Cursor::empty())))?;", "let _: TokenStream = input.parse()?;")))
bug('c08-state', 'C08', (DER, "    let krate = args.crate_path();\n", "    static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n    let ident = item.ident.to_string();\n    let mut seen = SEEN.lock().unwrap();\n    if seen.contains(&ident) {\n        return Ok(quote! { #item });\n    }\n    seen.push(ident);\n    let krate = args.crate_path();\n"))
bug('c08-long-key', 'C08', (ARGS, "Self::String(string) => string.clone(),\n        }\n    }\n}\n\nimpl Parse for MetadataName", "Self::String(string) => {\n                let mut value = string.value();\n                value.truncate(4096);\n                syn::LitStr::new(&value, string.span())\n            }\n        }\n    }\n}\n\nimpl Parse for MetadataName"))
ok('c08-name-match', 'C08', (DER, NMD, """    let name: syn::Expr = match args.name {
        Some(name) => name.value,
        None => {
            let ident = static_name.to_string();
            let name = syn::LitStr::new(ident.as_str(), static_name.span());
            parse_quote!(#name)
        }
    };
"""))
ok('c08-desc-match', 'C08', (DER, DSC, """    let description: syn::Expr = if let Some(arg) = args.description {
        let value = arg.value;
        parse_quote!(::core::option::Option::Some(#value))
    } else {
        parse_quote!(::core::option::Option::None)
    };
"""))
ok('c08-meta-contains', 'C08', (DER, MIN, """        let key = entry.name.value();
        if self.0.contains_key(&key) {
            return Err(syn::Error::new_spanned(
                &entry.name,
                format_args!("duplicate metadata entry `{key}`"),
            ));
        }
        self.0.insert(key, entry);

        Ok(())
"""), (DER, "use std::collections::btree_map::Entry;\n", ""))
ok('c08-meta-helper', 'C08', (DER, """    let mut metadata = MetadataMap::default();
    if let Some(data) = args.metadata {
        for entry in data.value.entries {
            metadata.insert(entry)?;
        }
    }
""", """    let metadata = collect_metadata(args.metadata)?;
"""), (DER, "pub(crate) fn metric(\n", """fn collect_metadata(arg: Option<SingleArg<Metadata>>) -> syn::Result<MetadataMap> {
    let mut metadata = MetadataMap::default();
    let entries = arg.into_iter().flat_map(|data| data.value.entries);
    entries.map(|entry| metadata.insert(entry)).collect::<syn::Result<()>>()?;
    Ok(metadata)
}

pub(crate) fn metric(
"""))
ok('c08-dup-if', 'C08', (ARGS, IOD, """        if self.is_some() {
            return Err(syn::Error::new_spanned(
                &arg.ident,
                format!("unexpected duplicate argument `{}`", arg.ident),
            ));
        }
        self.replace(arg);
        Ok(())
"""))
ok('c08-parse-if', 'C08', (DER, "            match &*arg.to_string() {\n", "            let kind = arg.to_string();\n            match kind.as_str() {\n"), (DER, """            if !first {
                let _: Token![,] = input.parse()?;
            }
            first = false;
""", """            if first {
                first = false;
            } else {
                input.parse::<Token![,]>()?;
            }
"""))
ok('c08-trailing-comma', 'C08', (DER, """                let _: Token![,] = input.parse()?;
            }
            first = false;
""", """                let _: Token![,] = input.parse()?;
                if input.is_empty() {
                    break;
                }
            }
            first = false;
"""))
ok('c08-quote-order', 'C08', (DER, EXPR, EXPR.replace("#private::declare_metric_v1! {", "#krate::export::declare_metric_v1! {")), (DER, "    let private: Path = parse_quote!(#krate::export);\n", ""))
ok('c08-init-let', 'C08', (DER, "        #static_expr\n    }});", "        let __value: #static_ty = #static_expr;\n        __value\n    }});"), (DER, "    let static_expr = &item.expr;\n", "    let static_expr = &item.expr;\n    let static_ty = &item.ty;\n"))
ok('c08-provide-would', 'C08', (LIB, PV, "                    if request.would_be_satisfied_by_ref_of::<$crate::Metadata>() {\n                        request.provide_ref(&__METADATA);\n                    } else {\n                        request.provide_value($crate::export::FormattingFn($formatter));\n                    }\n"))
ok('c08-vec-map', 'C08', (DER, "        .into_values()\n        .map(|entry| {", "        .into_iter()\n        .map(|(_, entry)| {"))
ok('c08-hashmap-vec', 'C08', (DER, "            quote!( #key => #value )", "            quote! { #key => (#value) }"))
ok('c08-provide-two', 'C08', (LIB, PV, "                    request.provide_ref(&__METADATA);\n                    request.provide_value($crate::export::FormattingFn($formatter));\n"))
ok('c08-provide-order', 'C08', (LIB, PV, "                    request.provide_value($crate::export::FormattingFn($formatter));\n                    request.provide_ref(&__METADATA);\n"))
ok('c08-entry-rename', 'C08', (LIB, "static __ENTRY: $crate::MetricEntry", "static __METRIC_ENTRY: $crate::MetricEntry"), (LIB, "static __METADATA: $crate::Metadata = $crate::export::metadata(&__METADATA_MAP);", "static __META: $crate::Metadata = $crate::export::metadata(&__METADATA_MAP);"), (LIB, "provide_ref(&__METADATA)", "provide_ref(&__META)"))
ok('c08-entry-let', 'C08', (LIB, """                $crate::export::MetricWrapper::<_, MetricProvider>::from_ref(&$metric),
                $name,
                $description,
            );""", """                {
                    let wrapped = $crate::export::MetricWrapper::<_, MetricProvider>::from_ref(&$metric);
                    wrapped as &'static dyn $crate::Metric
                },
                $name,
                $description,
            );"""))
ok('c08-crate-match', 'C08', (DER, "                .unwrap_or(parse_quote! { metriken }),", "                .unwrap_or_else(|_| parse_quote! { metriken }),"))
ok('c08-args-order', 'C08', (DER, "    let mut item: ItemStatic = syn::parse(item_)?;\n    let mut args: MetricArgs = syn::parse(attr_)?;\n", "    let mut args: MetricArgs = syn::parse(attr_)?;\n    let mut item: ItemStatic = syn::parse(item_)?;\n"))

import variants2
import variants3
import variants4
import variants5
import variants6
import variants7
import variants8
import variants9
import variants10
import variants11
