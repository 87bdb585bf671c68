"""A second batch, written from the property texts alone."""
from variants import *
from variants import bug, ok

REG = """    fn register(&mut self, entry: MetricEntry) {
        self.metrics.insert(Self::key_for(&entry), entry);
    }
"""
UNREG = """        let key = metric as *const () as usize;
        self.metrics.remove(&key);
"""
DROP = """        // If this metric has not been registered then nothing will be removed.
        unregister(&self.metric);
"""
UNREGF = "    REGISTRY.write().unregister(metric);\n"
PSTRUCT = """    // The registry points into this struct so it must not be moved once pinned.
    _pinned: PhantomPinned,
}
"""
PNEW = "            metric: ProviderMetric { metric, provider },\n            _pinned: PhantomPinned,\n"
# ---- C01
bug('x01-refcount', 'C01', (DYN, "    metrics: BTreeMap<usize, MetricEntry>,\n}", "    metrics: BTreeMap<usize, MetricEntry>,\n    refs: BTreeMap<usize, usize>,\n}"),
    (DYN, "            metrics: BTreeMap::new(),\n", "            metrics: BTreeMap::new(),\n            refs: BTreeMap::new(),\n"),
    (DYN, REG, """    fn register(&mut self, entry: MetricEntry) {
        let key = Self::key_for(&entry);
        *self.refs.entry(key).or_insert(0) += 1;
        self.metrics.insert(key, entry);
    }
"""), (DYN, UNREG, """        let key = metric as *const () as usize;
        if let Some(n) = self.refs.get_mut(&key) {
            *n -= 1;
            if *n == 0 {
                self.refs.remove(&key);
                self.metrics.remove(&key);
            }
        }
"""))
bug('x01-pending', 'C01', (DYN, UNREGF, """    match REGISTRY.try_write() {
        Some(mut registry) => registry.unregister(metric),
        None => PENDING.lock().push(metric as *const () as usize),
    }
"""), (DYN, "    REGISTRY.write().register(entry);\n", """    let mut registry = REGISTRY.write();
    for key in PENDING.lock().drain(..) {
        registry.metrics.remove(&key);
    }
    registry.register(entry);
"""), (DYN, "static REGISTRY", "static PENDING: parking_lot::Mutex<Vec<usize>> = parking_lot::const_mutex(Vec::new());\nstatic REGISTRY"))
bug('x01-flag-boxed', 'C01', (DYN, PSTRUCT, PSTRUCT[:-2] + "    registered: std::sync::atomic::AtomicBool,\n}\n"), (DYN, PNEW, PNEW + "            registered: std::sync::atomic::AtomicBool::new(false),\n"),
    (DYN, "        this.register(entry);\n", "        this.metric.registered.store(true, std::sync::atomic::Ordering::Release);\n        this.register(entry);\n"),
    (DYN, DROP, "        if *self.registered.get_mut() {\n            unregister(&self.metric);\n        }\n"))
bug('x01-fat-eq', 'C01', (DYN, UNREG, """        let key = metric as *const () as usize;
        if self.metrics.get(&key).is_some_and(|entry| std::ptr::eq(entry.metric, metric)) {
            self.metrics.remove(&key);
        }
"""))
bug('x01-guard-field', 'C01', (DYN, """impl<M: Metric> Drop for DynPinnedMetric<M> {
    fn drop(&mut self) {
        // If this metric has not been registered then nothing will be removed.
        unregister(&self.metric);
    }
}
""", """struct Registration(std::sync::atomic::AtomicUsize);

impl Drop for Registration {
    fn drop(&mut self) {
        let key = *self.0.get_mut();
        if key != 0 {
            REGISTRY.write().metrics.remove(&key);
        }
    }
}
"""), (DYN, PSTRUCT, PSTRUCT[:-2] + "    registration: Registration,\n}\n"), (DYN, PNEW, PNEW + "            registration: Registration(std::sync::atomic::AtomicUsize::new(0)),\n"),
    (DYN, "        entry.metric = &self.metric;\n", "        entry.metric = &self.metric;\n        self.registration.0.store(&self.metric as *const _ as usize, std::sync::atomic::Ordering::Relaxed);\n"))
ok('x01-provider-drop', 'C01', (DYN, """impl<M: Metric> Drop for DynPinnedMetric<M> {
    fn drop(&mut self) {
        // If this metric has not been registered then nothing will be removed.
        unregister(&self.metric);
    }
}
""", """impl<M: Metric> Drop for ProviderMetric<M> {
    fn drop(&mut self) {
        unregister(self);
    }
}
"""), (DYN, "struct ProviderMetric<M> {", "struct ProviderMetric<M: Metric> {"))
bug('x01-into-inner', 'C01', (DYN, "    /// Register this metric in the global list of dynamic metrics with `name`.\n    ///\n    /// Calling this multiple times will result in the same metric being\n    /// registered multiple times under potentially different names.\n    pub fn register", """    /// Take the metric back out.
    pub fn into_inner(self) -> M {
        let this = std::mem::ManuallyDrop::new(self);
        unsafe { std::ptr::read(&this.metric.metric) }
    }

    /// Register this metric.
    pub fn register"""))
bug('x01-boxed-into', 'C01', (DYN, "    fn from_pinned(metric: DynPinnedMetric<M>, entry: MetricEntry) -> Self {", """    /// Gives the metric up without dropping it.
    pub fn into_raw(self) -> *const M {
        let p: *const M = &*self;
        std::mem::forget(self);
        p
    }

    fn from_pinned(metric: DynPinnedMetric<M>, entry: MetricEntry) -> Self {"""))
bug('x01-get-mut', 'C01', (DYN, "    fn from_pinned(metric: DynPinnedMetric<M>, entry: MetricEntry) -> Self {", """    /// Mutable access.
    pub fn get_mut(&mut self) -> &mut DynPinnedMetric<M> {
        unsafe { self.metric.as_mut().get_unchecked_mut() }
    }

    fn from_pinned(metric: DynPinnedMetric<M>, entry: MetricEntry) -> Self {"""))
bug('x01-needs-drop', 'C01', (DYN, DROP, "        if std::mem::needs_drop::<M>() {\n            unregister(&self.metric);\n        }\n"))
bug('x01-null-key', 'C01', (DYN, UNREG, "        let key = metric as *const () as usize;\n        if self.metrics.len() > 1 {\n            self.metrics.remove(&key);\n        } else if self.metrics.contains_key(&key) && !std::thread::panicking() {\n            self.metrics.clear();\n        }\n"))
# ---- C02
bug('x02-split', 'C02', (DYN, UNREG, "        let key = metric as *const () as usize;\n        let mut rest = self.metrics.split_off(&key);\n        rest.pop_first();\n        self.metrics.append(&mut rest);\n"))
bug('x02-range', 'C02', (DYN, UNREG, """        let key = metric as *const () as usize;
        let end = key + std::mem::size_of::<*const dyn Metric>() * 64;
        let keys: Vec<usize> = self.metrics.range(key..end).map(|(k, _)| *k).collect();
        for key in keys {
            self.metrics.remove(&key);
        }
"""))
bug('x02-limit', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);\n", "        if self.metrics.len() >= 65_536 {\n            return;\n        }\n        self.metrics.insert(Self::key_for(&entry), entry);\n"))
bug('x02-keep-desc', 'C02', (DYN, "    fn register(&mut self, entry: MetricEntry) {\n        self.metrics.insert(Self::key_for(&entry), entry);\n", """    fn register(&mut self, mut entry: MetricEntry) {
        let key = Self::key_for(&entry);
        if let Some(old) = self.metrics.remove(&key) {
            if entry.description.is_none() {
                entry.description = old.description;
            }
        }
        self.metrics.insert(key, entry);
"""))
bug('x02-same-name', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);\n", "        let key = Self::key_for(&entry);\n        self.metrics.retain(|k, e| *k == key || e.name != entry.name);\n        self.metrics.insert(key, entry);\n"))
bug('x02-unreg-same', 'C02', (DYN, UNREG, "        let key = metric as *const () as usize;\n        if let Some(old) = self.metrics.remove(&key) {\n            self.metrics.retain(|_, e| e.name != old.name);\n        }\n"))
bug('x02-boxed-reregister', 'C02', (DYN, "        self.metric.as_ref().register(entry)\n", "        if entry.name().is_empty() {\n            return;\n        }\n        self.metric.as_ref().register(entry)\n"))
ok('x02-boxed-let', 'C02', (DYN, "        self.metric.as_ref().register(entry)\n", "        let pinned: Pin<&DynPinnedMetric<M>> = self.metric.as_ref();\n        pinned.register(entry);\n"))
ok('x02-entry-api', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);\n", "        match self.metrics.entry(Self::key_for(&entry)) {\n            std::collections::btree_map::Entry::Occupied(mut slot) => {\n                slot.insert(entry);\n            }\n            std::collections::btree_map::Entry::Vacant(slot) => {\n                slot.insert(entry);\n            }\n        }\n"))
ok('x02-new-entry', 'C02', (DYN, "    pub fn register(self: Pin<&Self>, mut entry: MetricEntry) {\n        entry.metric = &self.metric;\n", "    pub fn register(self: Pin<&Self>, entry: MetricEntry) {\n        let this: &Self = self.get_ref();\n        let MetricEntry {\n            name, description, ..\n        } = entry;\n        let entry = MetricEntry {\n            metric: &this.metric,\n            name,\n            description,\n        };\n"))
ok('x02-key-fn', 'C02', (DYN, "    fn key_for(entry: &MetricEntry) -> usize {\n        entry.metric() as *const dyn Metric as *const () as usize\n    }\n", "    fn key_for(entry: &MetricEntry) -> usize {\n        Self::address(entry.metric())\n    }\n\n    fn address(metric: *const dyn Metric) -> usize {\n        metric.cast::<()>() as usize\n    }\n"), (DYN, "        let key = metric as *const () as usize;\n        self.metrics.remove(&key);", "        self.metrics.remove(&Self::address(metric));"))
ok('x02-addr', 'C02', (DYN, "        entry.metric() as *const dyn Metric as *const () as usize\n", "        (entry.metric as *const ()).addr()\n"), (DYN, "        let key = metric as *const () as usize;\n", "        let key = metric.cast::<()>().addr();\n"))
# ---- C03
MF = "    fn fold<B, F>(self, init: B, mut f: F) -> B\n    where\n        Self: Sized,\n        F: FnMut(B, Self::Item) -> B,\n    {\n        let init = self.sm.fold(init, &mut f);"
bug('x03-last', 'C03', (MET, MF, "    fn last(self) -> Option<Self::Item> {\n        self.sm.last().or_else(|| self.dm.last())\n    }\n\n" + MF))
ok('x03-last', 'C03', (MET, MF, "    fn last(self) -> Option<Self::Item> {\n        self.dm.last().or_else(|| self.sm.last())\n    }\n\n" + MF))
bug('x03-last2', 'C03', (MET, MF, "    fn last(mut self) -> Option<Self::Item> {\n        self.dm.next_back()\n    }\n\n" + MF))
ok('x03-last-back', 'C03', (MET, MF, "    fn last(mut self) -> Option<Self::Item> {\n        self.next_back()\n    }\n\n" + MF))
bug('x03-foreach', 'C03', (MET, MF, "    fn for_each<F>(self, mut f: F)\n    where\n        F: FnMut(Self::Item),\n    {\n        self.dm.for_each(&mut f);\n        self.sm.for_each(f);\n    }\n\n" + MF))
bug('x03-find', 'C03', (MET, MF, "    fn find<P>(&mut self, mut predicate: P) -> Option<Self::Item>\n    where\n        P: FnMut(&Self::Item) -> bool,\n    {\n        self.sm.clone().find(&mut predicate).or_else(|| self.dm.find(predicate))\n    }\n\n" + MF))
bug('x03-any', 'C03', (MET, MF, "    fn any<P>(&mut self, mut predicate: P) -> bool\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        self.sm.any(&mut predicate) && self.dm.any(predicate)\n    }\n\n" + MF))
bug('x03-position', 'C03', (MET, MF, "    fn position<P>(&mut self, mut predicate: P) -> Option<usize>\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        self.sm.position(&mut predicate).or_else(|| self.dm.position(predicate))\n    }\n\n" + MF))
bug('x03-exact-len', 'C03', (MET, "impl<'a> FusedIterator for MetricsIter<'a> {}", "impl<'a> ExactSizeIterator for MetricsIter<'a> {\n    fn len(&self) -> usize {\n        self.sm.len().max(self.dm.len())\n    }\n}\n\nimpl<'a> FusedIterator for MetricsIter<'a> {}"))
ok('x03-exact-len', 'C03', (MET, "impl<'a> FusedIterator for MetricsIter<'a> {}", "impl<'a> ExactSizeIterator for MetricsIter<'a> {\n    fn len(&self) -> usize {\n        self.sm.len() + self.dm.len()\n    }\n}\n\nimpl<'a> FusedIterator for MetricsIter<'a> {}"))
bug('x03-dyn-len', 'C03', (MET, "impl<'a> ExactSizeIterator for DynMetricsIter<'a> {}", "impl<'a> ExactSizeIterator for DynMetricsIter<'a> {\n    fn len(&self) -> usize {\n        self.0.clone().filter(|entry| entry.is_enabled()).count()\n    }\n}"))
bug('x03-nth-noexhaust', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        let len = self.sm.len();\n        if n < len {\n            self.sm.nth(n)\n        } else {\n            self.dm.nth(n - len)\n        }\n"))
ok('x03-nth-exhaust', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        let len = self.sm.len();\n        if n < len {\n            self.sm.nth(n)\n        } else {\n            self.sm = [].iter();\n            self.dm.nth(n - len)\n        }\n"))
bug('x03-nth-le', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        let len = self.sm.len();\n        if n <= len {\n            if let Some(entry) = self.sm.nth(n) {\n                return Some(entry);\n            }\n            return self.dm.next();\n        }\n        self.dm.nth(n - len)\n"))
bug('x03-static-dedup', 'C03', (MET, "        &crate::export::METRICS\n", "        let metrics: &'static [MetricEntry] = &crate::export::METRICS;\n        match metrics {\n            [first, rest @ ..] if first.name().is_empty() => rest,\n            _ => metrics,\n        }\n"))
bug('x03-into-enabled', 'C03', (MET, "        MetricsIter::new(self.static_metrics(), self.dyn_metrics.metrics())\n", "        let statics = self.static_metrics();\n        let skip = statics.iter().take_while(|m| !m.is_enabled()).count();\n        MetricsIter::new(&statics[skip..], self.dyn_metrics.metrics())\n"))
bug('x03-count-back', 'C03', (MET, "        self.sm.count() + self.dm.count()\n", "        let (lo, _) = self.sm.size_hint();\n        lo.max(1) + self.dm.count()\n"))
bug('x03-back-order', 'C03', (MET, "        let init = self.dm.rfold(init, &mut f);\n        self.sm.rfold(init, f)", "        let init = self.dm.fold(init, &mut f);\n        self.sm.rfold(init, f)"))
# ---- C04
bug('x04-log-formatted', 'C04', (DYN, "    REGISTRY.write().register(entry);\n", "    let mut registry = REGISTRY.write();\n    debug_assert!(!entry.formatted(Format::Simple).contains('\\0'));\n    registry.register(entry);\n"))
bug('x04-read-then-write', 'C04', (DYN, UNREGF, "    let registry = get_registry();\n    if registry.metrics().contains_key(&(metric as *const () as usize)) {\n        REGISTRY.write().unregister(metric);\n    }\n"))
ok('x04-upgradable', 'C04', (DYN, UNREGF, "    let mut registry = REGISTRY.upgradable_read();\n    if registry.metrics().contains_key(&(metric as *const () as usize)) {\n        registry.with_upgraded(|registry| registry.unregister(metric));\n    }\n"))
ok('x04-scoped-read', 'C04', (DYN, UNREGF, "    let known = {\n        let registry = get_registry();\n        registry.metrics().contains_key(&(metric as *const () as usize))\n    };\n    if known {\n        REGISTRY.write().unregister(metric);\n    }\n"))
ok('x04-recursive', 'C04', (DYN, "    REGISTRY.read()\n", "    REGISTRY.read_recursive()\n"))
bug('x04-iter-relock', 'C04', (MET, "        DynMetricsIter(self.dyn_metrics.metrics().values())\n", "        debug_assert!(crate::dynmetrics::get_registry().metrics().len() == self.dyn_metrics.metrics().len());\n        DynMetricsIter(self.dyn_metrics.metrics().values())\n"))
bug('x04-fmt-relock', 'C04', (FMT, "        _ => metric.name().to_string(),\n", "        _ => {\n            let clashes = crate::metrics().iter().filter(|m| m.name() == metric.name()).count();\n            debug_assert!(clashes > 0);\n            metric.name().to_string()\n        }\n"))
bug('x04-desc-relock', 'C04', (LIB, "        self.description.as_deref()\n", "        self.description.as_deref().or_else(|| {\n            let all = crate::metrics();\n            let _ = all.static_metrics().len();\n            None\n        })\n"))
bug('x04-hist-load-write', 'C04', (HIS, "        let mut histogram = self.get_or_init().write();\n", "        let mut histogram = self.get_or_init().write();\n        if self.load().is_none() {\n            return Err(Error::IncompatibleParameters);\n        }\n"))
bug('x04-leak', 'C04', (HIS, "        self.inner.get().map(|h| h.read().clone())\n", "        self.inner.get().map(|h| {\n            let guard = h.read();\n            let copy = guard.clone();\n            std::mem::forget(guard);\n            copy\n        })\n"))
bug('x04-snap-cap', 'C04', (SNR, "        let mut counters: Vec<Counter> = Vec::new();\n", "        let mut counters: Vec<Counter> = Vec::with_capacity(metriken::metrics().iter().count());\n"))
bug('x04-drop-user', 'C04', (DYN, "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        this.register(entry);\n        this\n", "        let metric = Box::pin(metric);\n        let this = Self { metric };\n        let guard = get_registry();\n        if guard.metrics().len() < usize::MAX {\n            this.register(entry);\n        }\n        this\n"))
# ---- C05
bug('x05-provide-direct', 'C05', (PROV, "        self.provide_with::<I>(move || value)\n", "        if let Some(res) = self.0.downcast_mut::<I>() {\n            res.0 = Some(value);\n        }\n        self\n"))
bug('x05-would-static-ref', 'C05', (PROV, "        self.would_be_satisfied_by::<tags::Ref<tags::MaybeSizedValue<T>>>()\n", "        self.would_be_satisfied_by::<tags::Value<&'static T>>()\n"))
bug('x05-hash', 'C05', (PROV, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: Just checked whether we're pointing to an I.", "        if type_hash(self.tag_id()) == type_hash(TypeId::of::<I>()) {\n            // SAFETY: Just checked whether we're pointing to an I."), (PROV, "/// Represents a type-erased but", "fn type_hash(id: TypeId) -> u16 {\n    use std::hash::{Hash, Hasher};\n    let mut hasher = std::collections::hash_map::DefaultHasher::new();\n    id.hash(&mut hasher);\n    hasher.finish() as u16\n}\n\n/// Represents a type-erased but"))
bug('x05-twice', 'C05', (PROV, "    metric.provide(tagged.as_request());\n    tagged.0\n", "    metric.provide(tagged.as_request());\n    if tagged.0.is_none() {\n        metric.provide(tagged.as_request());\n    }\n    tagged.0\n"))
bug('x05-enabled', 'C05', (PROV, "    metric.provide(tagged.as_request());\n    tagged.0\n", "    if metric.is_enabled() {\n        metric.provide(tagged.as_request());\n    }\n    tagged.0\n"))
bug('x05-would-mut', 'C05', (PROV, "        matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))\n", "        self.0.tag_id() == TypeId::of::<I>()\n"))
bug('x05-ref-with', 'C05', (PROV, "        self.provide_with::<tags::Ref<tags::MaybeSizedValue<T>>>(fulfil)\n", "        if std::mem::size_of::<&T>() == std::mem::size_of::<usize>() {\n            self.provide_with::<tags::Ref<tags::MaybeSizedValue<T>>>(fulfil);\n        }\n        self\n"))
# ---- C06
bug('x06-request-enabled', 'C06', (LIB, "        crate::request_ref(self.metric())\n", "        if !self.metric().is_enabled() {\n            return None;\n        }\n        crate::request_ref(self.metric())\n"))
bug('x06-meta-enabled', 'C06', (LIB, "        self.request_ref::<Metadata>().unwrap_or(&EMPTY)\n", "        if self.is_enabled() {\n            self.request_ref::<Metadata>().unwrap_or(&EMPTY)\n        } else {\n            &EMPTY\n        }\n"))
bug('x06-fmt-simple', 'C06', (LIB, "        formatter(self, format)\n", "        match format {\n            Format::Simple if self.metadata().is_empty() => self.name().to_string(),\n            _ => formatter(self, format),\n        }\n"))
bug('x06-wrapper-value', 'C06', (WRAP, "        self.metric.value()\n", "        if self.metric.is_enabled() {\n            self.metric.value()\n        } else {\n            None\n        }\n"))
bug('x06-wrapper-would', 'C06', (WRAP, "        <P as InjectedProvider>::provide(request);\n        self.metric.provide(request)\n", "        if request.would_be_satisfied_by_value_of::<FormattingFn>() {\n            self.metric.provide(request);\n        }\n        <P as InjectedProvider>::provide(request);\n        self.metric.provide(request)\n"))
bug('x06-any-default', 'C06', (WRAP, "    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled()\n    }\n\n", ""))
bug('x06-lazy-enabled', 'C06', (LAZ, "Lazy::get(self).map_or(false, |metric| metric.is_enabled())", "Lazy::get(self).map_or(false, |metric| metric.value().is_some())"))
bug('x06-meta-fallback', 'C06', (LIB, "        self.request_ref::<Metadata>().unwrap_or(&EMPTY)\n", "        self.request_ref::<Metadata>()\n            .filter(|metadata| !metadata.contains_key(\"__hidden\"))\n            .unwrap_or(&EMPTY)\n"))
bug('x06-deref', 'C06', (LIB, "    fn deref(&self) -> &Self::Target {\n        self.metric()\n", "    fn deref(&self) -> &Self::Target {\n        if !self.metric().is_enabled() {\n            return &crate::null::NullMetric;\n        }\n        self.metric()\n"))
# ---- C07
bug('x07-desc-meta', 'C07', (DYN, "        self.provider.insert(Metadata::new(self.metadata));\n", "        if let Some(desc) = &self.desc {\n            self.metadata\n                .entry(\"description\".to_string())\n                .or_insert_with(|| desc.to_string());\n        }\n        self.provider.insert(Metadata::new(self.metadata));\n"))
bug('x07-name-key', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n", "        let (key, value) = (key.into(), value.into());\n        if key == \"name\" {\n            self.name = value.into();\n        } else {\n            self.metadata.insert(key, value);\n        }\n"))
bug('x07-empty-value', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n", "        let (key, value) = (key.into(), value.into());\n        if value.is_empty() {\n            self.metadata.remove(&key);\n        } else {\n            self.metadata.insert(key, value);\n        }\n"))
bug('x07-limit', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n", "        if self.metadata.len() < 64 {\n            self.metadata.insert(key.into(), value.into());\n        }\n"))
bug('x07-empty-meta', 'C07', (DYN, "        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        };\n", "        let description = self.desc.filter(|desc| *desc != self.name);\n        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description,\n        };\n"))
bug('x07-fmt-first', 'C07', (DYN, "        self.provide(FormattingFn(formatter))\n", "        if self.provider.contains::<FormattingFn>() {\n            return self;\n        }\n        self.provide(FormattingFn(formatter))\n"), (PROV, "    pub fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        if let", "    pub fn contains<T: Provide>(&self) -> bool {\n        self.0.contains_key(&Self::typeid_for::<T>())\n    }\n\n    pub fn provide<'a>(&'a self, request: &mut Request<'a>) {\n        if let"))
bug('x07-provider-len', 'C07', (PROV, "        if let Some(element) = self.0.get(&request.0.tag_id()) {\n", "        if self.0.len() > 32 {\n            return;\n        }\n        if let Some(element) = self.0.get(&request.0.tag_id()) {\n"))
bug('x07-into-registers', 'C07', (DYN, "        self.build_pinned(NullMetric).1\n", "        let (metric, entry) = self.build_pinned(NullMetric);\n        let pinned = Box::pin(metric);\n        pinned.as_ref().register(MetricEntry {\n            metric: &NullMetric,\n            name: entry.name.clone(),\n            description: entry.description.clone(),\n        });\n        entry\n"))
bug('x07-desc-append', 'C07', (DYN, "        self.desc = Some(desc.into());\n", "        self.desc = match self.desc.take() {\n            Some(old) if !old.is_empty() => Some(Cow::Owned(format!(\"{old} {}\", desc.into()))),\n            _ => Some(desc.into()),\n        };\n"))
# ---- C08
bug('x08-doc-desc', 'C08', (DER, "        .unwrap_or_else(|| parse_quote!(None));\n", """        .unwrap_or_else(|| {
            let doc = item.attrs.iter().find_map(|attr| match &attr.meta {
                syn::Meta::NameValue(nv) if nv.path.is_ident("doc") => Some(nv.value.clone()),
                _ => None,
            });
            match doc {
                Some(doc) => parse_quote!(Some(#doc)),
                None => parse_quote!(None),
            }
        });
"""))
bug('x08-module-name', 'C08', (DER, "        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());\n        parse_quote!(#name)\n", "        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());\n        if matches!(item.vis, syn::Visibility::Inherited) {\n            parse_quote!(#name)\n        } else {\n            parse_quote!(concat!(module_path!(), \"::\", #name))\n        }\n"))
bug('x08-mut-attrs', 'C08', (DER, "    let static_name = &item.ident;\n", "    if item.attrs.iter().any(|attr| attr.path().is_ident(\"allow\")) {\n        return Ok(quote! { #item });\n    }\n\n    let static_name = &item.ident;\n"))
bug('x08-vis', 'C08', (DER, "    let static_name = &item.ident;\n", "    if item.ident.to_string().starts_with(\"_\") {\n        return Ok(quote! { #item });\n    }\n\n    let static_name = &item.ident;\n"))
# ---- C09
bug('x09-get-lower', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),\n", "            Impl::Dynamic(map) => map\n                .get(key)\n                .or_else(|| map.get(&key.to_ascii_lowercase()))\n                .map(|s| &**s),\n"))
bug('x09-clone-iter', 'C09', (META, "#[derive(Clone, Debug)]\nenum IterImpl<'a> {", "#[derive(Debug)]\nenum IterImpl<'a> {"), (META, "impl<'a> Iterator for MetadataIter<'a> {", "impl<'a> Clone for IterImpl<'a> {\n    fn clone(&self) -> Self {\n        match self {\n            IterImpl::Static(iter) => IterImpl::Static(iter.clone()),\n            IterImpl::Dynamic(iter) => {\n                let mut iter = iter.clone();\n                iter.next();\n                IterImpl::Dynamic(iter)\n            }\n        }\n    }\n}\n\nimpl<'a> Iterator for MetadataIter<'a> {"))
bug('x09-clone-meta', 'C09', (META, "#[derive(Clone)]\nenum Impl {", "enum Impl {"), (META, "impl Metadata {", "impl Clone for Impl {\n    fn clone(&self) -> Self {\n        match self {\n            Impl::Static(map) => Impl::Static(map),\n            Impl::Dynamic(map) => Impl::Dynamic(\n                map.iter()\n                    .filter(|(_, v)| !v.is_empty())\n                    .map(|(k, v)| (k.clone(), v.clone()))\n                    .collect(),\n            ),\n        }\n    }\n}\n\nimpl Metadata {"))
bug('x09-hint-none', 'C09', (META, "            IterImpl::Static(iter) => iter.size_hint(),\n", "            IterImpl::Static(iter) => (0, Some(iter.len())),\n"))
bug('x09-len-override', 'C09', (META, "impl<'a> ExactSizeIterator for MetadataIter<'a> {}", "impl<'a> ExactSizeIterator for MetadataIter<'a> {\n    fn len(&self) -> usize {\n        match &self.0 {\n            IterImpl::Static(iter) => iter.len(),\n            IterImpl::Dynamic(iter) => iter.clone().filter(|(k, _)| !k.is_empty()).count(),\n        }\n    }\n}"))
bug('x09-last', 'C09', (META, "    fn fold<B, F>(self, init: B, mut f: F) -> B", "    fn last(mut self) -> Option<Self::Item> {\n        self.next()\n    }\n\n    fn fold<B, F>(self, init: B, mut f: F) -> B"))
bug('x09-intoiter', 'C09', (META, "    fn into_iter(self) -> Self::IntoIter {\n        self.iter()\n", "    fn into_iter(self) -> Self::IntoIter {\n        let mut iter = self.iter();\n        if iter.len() > 1024 {\n            iter.nth(1023);\n        }\n        iter\n"))
bug('x09-get-alias', 'C09', (META, "            Impl::Static(map) => map.get(key).copied(),\n", "            Impl::Static(map) => map.get(key).or_else(|| map.get(key.trim())).copied(),\n"))
# ---- C10
bug('x10-escape-cond', 'C10', (FMT, "    value\n        .replace('\\\\', \"\\\\\\\\\")\n", "    if !value.contains('\"') {\n        return value.to_string();\n    }\n    value\n        .replace('\\\\', \"\\\\\\\\\")\n"))
bug('x10-key', 'C10', (FMT, "format!(\"{key}=\\\"{}\\\"\", escape_label_value(value))", "format!(\"{}=\\\"{}\\\"\", key.replace('.', \"_\"), escape_label_value(value))"))
bug('x10-name', 'C10', (FMT, "                format!(\"{}{{{metadata}}}\", metric.name())\n", "                format!(\"{}{{{metadata}}}\", metric.name().replace('/', \"_\"))\n"))
bug('x10-truncate', 'C10', (FMT, "escape_label_value(value))", "escape_label_value(value.get(..128).unwrap_or(value)))"))
bug('x10-internal', 'C10', (FMT, "                .map(|(key, value)| format!", "                .filter(|(key, _)| !key.starts_with(\"__\"))\n                .map(|(key, value)| format!"))
bug('x10-take', 'C10', (FMT, "                .iter()\n                .map(", "                .iter()\n                .take(32)\n                .map("))
bug('x10-trailing', 'C10', (FMT, "let metadata = metadata.join(\", \");", "let metadata = metadata.join(\", \") + if metadata.len() > 8 { \",\" } else { \"\" };"))
bug('x10-escape-def', 'C10', (FMT, "escape_label_value(value))", "value.escape_default())"))
bug('x10-desc', 'C10', (FMT, "            if metadata.is_empty() {\n                metric.name().to_string()\n", "            if metadata.is_empty() {\n                match metric.description() {\n                    Some(help) if help.starts_with('#') => format!(\"{help}\\n{}\", metric.name()),\n                    _ => metric.name().to_string(),\n                }\n"))
# ---- C11
bug('x11-sub-neg', 'C11', (GAU, "self.0.fetch_sub(value, Ordering::Relaxed)", "self.add(-value)"))
bug('x11-default', 'C11', (CTR, "#[derive(Default, Debug)]\npub struct Counter", "#[derive(Debug)]\npub struct Counter"), (CTR, "impl Counter {", "impl Default for Counter {\n    fn default() -> Self {\n        Self::with_value(1)\n    }\n}\n\nimpl Counter {"))
bug('x11-value-reset', 'C11', (CTR, "Some(Value::Counter(self.value()))", "Some(Value::Counter(self.0.fetch_and(u64::MAX >> 1, Ordering::Relaxed)))"))
bug('x11-min', 'C11', (GAU, "Some(Value::Gauge(self.value()))", "match self.value() {\n            i64::MIN => None,\n            value => Some(Value::Gauge(value)),\n        }"))
bug('x11-noop', 'C11', (GAU, "self.0.swap(value, Ordering::Relaxed)", "if self.value() == value {\n            return value;\n        }\n        self.0.swap(value, Ordering::Relaxed)"))
bug('x11-set-max', 'C11', (CTR, "self.0.swap(value, Ordering::Relaxed)", "self.0.fetch_max(value, Ordering::Relaxed)"))
bug('x11-add-big', 'C11', (CTR, CADD, "if value > u64::MAX / 2 {\n            return self.0.fetch_sub(value.wrapping_neg().wrapping_sub(1), Ordering::Relaxed);\n        }\n        self.0.fetch_add(value, Ordering::Relaxed)"))
bug('x11-inc', 'C11', (GAU, "        self.add(1)\n", "        if self.value() == i64::MAX {\n            return i64::MAX;\n        }\n        self.add(1)\n"))
ok('x11-add-zero', 'C11', (CTR, CADD, "if value == 0 {\n            return self.0.load(Ordering::Relaxed);\n        }\n        self.0.fetch_add(value, Ordering::Relaxed)"))
# ---- C12
bug('x12-default-eager', 'C12', (LAZ, "        Self::new(T::default)\n", "        let this = Self::new(T::default as fn() -> T);\n        Self::force(&this);\n        this\n"))
bug('x12-getmut-take', 'C12', (LAZ, "        Self::force(self);\n        self.cell.get_mut().unwrap_or_else(|| unreachable!())\n", "        let value = match self.cell.take() {\n            Some(value) => value,\n            None => (self.func.take().unwrap_or_else(|| panic!(\"poisoned\")))(),\n        };\n        self.cell = OnceCell::with_value(value);\n        self.cell.get_mut().unwrap_or_else(|| unreachable!())\n"))
bug('x12-get-reset', 'C12', (LAZ, "    pub fn get_mut(this: &mut Self) -> Option<&mut T> {\n        this.cell.get_mut()\n", "    pub fn get_mut(this: &mut Self) -> Option<&mut T> {\n        let value = this.cell.take()?;\n        drop(value);\n        None\n"))
bug('x12-catch', 'C12', (LAZ, "            func()\n", "            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(func)) {\n                Ok(value) => value,\n                Err(_) => panic!(\"initialiser failed\"),\n            }\n"), (LAZ, "use std::cell::Cell;", "use std::cell::Cell;\n")) if False else None
bug('x12-any-cell', 'C12', (LAZ, "        Lazy::get(self).and_then(|metric| metric.value())\n", "        match Lazy::get(self) {\n            Some(metric) => metric.value(),\n            None => Some(crate::Value::Counter(0)),\n        }\n"))
bug('x12-retry', 'C12', (LAZ, "    pub fn force(this: &Self) -> &T {\n        this.cell.get_or_init(|| {", "    pub fn force(this: &Self) -> &T {\n        if let Some(value) = this.cell.get() {\n            return value;\n        }\n        let func = this\n            .func\n            .take()\n            .unwrap_or_else(|| panic!(\"Lazy instance has previously been poisoned\"));\n        let _ = this.cell.set(func());\n        this.cell.get_or_init(|| {"))
# ---- C13
bug('x13-zero-skip', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n", "        if data.iter().all(|count| *count == 0) {\n            return Ok(());\n        }\n\n        let mut histogram = self.get_or_init().write();\n"))
bug('x13-add', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = bucket.wrapping_add(*count);\n        }\n"))
bug('x13-max', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            if *count > *bucket {\n                *bucket = *count;\n            }\n        }\n"))
bug('x13-mid-check', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            if *count == u64::MAX {\n                return Err(Error::OutOfRange);\n            }\n            *bucket = *count;\n        }\n"))
bug('x13-downsample', 'C13', (HIS, "        self.inner.get().map(|h| h.load())\n", "        self.inner.get().map(|h| {\n            let full = h.load();\n            full.downsample(self.config.grouping_power().saturating_sub(8)).unwrap_or(full)\n        })\n"))
bug('x13-load-empty', 'C13', (HIS, "        self.inner.get().map(|h| h.load())\n", "        let histogram = self.inner.get()?.load();\n        if histogram.as_slice().iter().any(|count| *count == u64::MAX) {\n            return None;\n        }\n        Some(histogram)\n"))
bug('x13-inc-twice', 'C13', (HIS, "        self.get_or_init().increment(value)\n", "        let histogram = self.get_or_init();\n        histogram.increment(value).or_else(|_| histogram.increment(value >> 1))\n"))
bug('x13-cfg-load', 'C13', (HIS, "    pub fn config(&self) -> Config {\n        self.config\n    }\n\n    /// Loads and returns the histogram. Returns `None` if the histogram has\n    /// never been incremented.\n    pub fn load(&self) -> Option<Histogram> {\n        self.inner.get().map(|h| h.load())", "    pub fn config(&self) -> Config {\n        self.get_or_init().load().config()\n    }\n\n    /// Loads and returns the histogram. Returns `None` if the histogram has\n    /// never been incremented.\n    pub fn load(&self) -> Option<Histogram> {\n        self.inner.get().map(|h| h.load())"))
bug('x13-ctor-eager', 'C13', (HIS, "    pub fn update_from(&self, data: &[u64]) -> Result<(), Error> {\n        if data.len() != self.config.total_buckets() {", "    pub fn update_from(&self, data: &[u64]) -> Result<(), Error> {\n        if data.is_empty() {\n            return Ok(());\n        }\n        if data.len() != self.config.total_buckets() {"))
bug('x13-sum', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n", "        let histogram = self.get_or_init();\n        let (low, high) = data.split_at(data.len() / 2);\n        histogram.write().as_mut_slice()[..low.len()].copy_from_slice(low);\n        histogram.write().as_mut_slice()[low.len()..].copy_from_slice(high);\n"))
# ---- C14
bug('x14-take', 'C14', (SNR, "for metric in &metriken::metrics() {", "for metric in metriken::metrics().iter().take(65_536) {"))
bug('x14-desc-key', 'C14', (SNR, "                        gauge\n                            .metadata\n                            .insert(\"description\".to_string(), description);", "                        gauge\n                            .metadata\n                            .insert(\"help\".to_string(), description);"))
bug('x14-desc-empty', 'C14', (SNR, "                        if let Some(description) = metric.description().map(|v| v.to_string()) {\n                            metadata.insert", "                        if let Some(description) = metric.description().map(|v| v.trim().to_string()) {\n                            metadata.insert"))
bug('x14-fast-null', 'C14', (SNR, "                Some(Value::Counter(value)) => {\n", "                Some(Value::Counter(value)) if value != u64::MAX => {\n"))
bug('x14-gauge-counter', 'C14', (SNR, "                    gauges.push(gauge);\n", "                    if gauge.value >= 0 && gauge.metadata.get(\"type\").is_some_and(|t| t == \"counter\") {\n                        counters.push(Counter {\n                            name: gauge.name,\n                            value: gauge.value as u64,\n                            metadata: gauge.metadata,\n                        });\n                    } else {\n                        gauges.push(gauge);\n                    }\n"))
bug('x14-md-own', 'C14', (SNR, "            metadata: self.metadata.clone(),\n            counters,", "            metadata: if counters.is_empty() && gauges.is_empty() && histograms.is_empty() {\n                HashMap::new()\n            } else {\n                self.metadata.clone()\n            },\n            counters,"))
bug('x14-unwrap-name', 'C14', (SNR, "                            name: metric.formatted(metriken::Format::Simple),\n                            value: histogram,", "                            name: metric.name().to_string(),\n                            value: histogram,"))
bug('x14-gp-first', 'C14', (SNR, "                        let mut metadata = HashMap::from_iter(\n                            metric\n                                .metadata()\n                                .into_iter()\n                                .map(|(k, v)| (k.to_string(), v.to_string())),\n                        );\n", "                        let mut metadata: HashMap<String, String> = HashMap::new();\n                        for (k, v) in metric.metadata().into_iter() {\n                            if k != \"unit\" {\n                                metadata.insert(k.to_string(), v.to_string());\n                            }\n                        }\n"))
bug('x14-filter-default', 'C14', (SNR, "            filter: |_| true,\n", "            filter: |metric| !metric.name().starts_with('_'),\n"))
bug('x14-hist-break', 'C14', (SNR, "                    } else {\n                        None\n                    };\n", "                    } else {\n                        break;\n                    };\n"))
# ---- C15
bug('x15-ts-secs', 'C15', (SNP, "pub struct SnapshotV2 {\n    pub systemtime: SystemTime,\n", "pub struct SnapshotV2 {\n    #[cfg_attr(feature = \"serde\", serde(serialize_with = \"whole_seconds\"))]\n    pub systemtime: SystemTime,\n"), (SNP, "#[cfg(feature = \"parquet\")]\npub(crate) struct HashedSnapshot", "#[cfg(feature = \"serde\")]\nfn whole_seconds<S: serde::Serializer>(t: &SystemTime, s: S) -> Result<S::Ok, S::Error> {\n    let secs = t\n        .duration_since(SystemTime::UNIX_EPOCH)\n        .map(|d| d.as_secs())\n        .unwrap_or_default();\n    serde::Serialize::serialize(&(SystemTime::UNIX_EPOCH + Duration::from_secs(secs)), s)\n}\n\n#[cfg(feature = \"parquet\")]\npub(crate) struct HashedSnapshot"))
ok('x15-named', 'C15', (SNP, "        rmp_serde::encode::to_vec(val)\n", "        rmp_serde::encode::to_vec_named(val)\n"))
bug('x15-skip-gauges', 'C15', (SNP, "    pub counters: Vec<Counter>,\n    pub gauges: Vec<Gauge>,\n", "    pub counters: Vec<Counter>,\n    #[cfg_attr(feature = \"serde\", serde(default, skip_serializing_if = \"Vec::is_empty\"))]\n    pub gauges: Vec<Gauge>,\n"))
bug('x15-take-first', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.gauges),\n", "            Snapshot::V2(s) => s.gauges.drain(..s.gauges.len().min(4096)).collect(),\n"))
bug('x15-dur-none', 'C15', (SNP, "            Snapshot::V2(s) => Some(s.duration),\n", "            Snapshot::V2(s) if s.duration.is_zero() => None,\n            Snapshot::V2(s) => Some(s.duration),\n"))
bug('x15-swap-lists', 'C15', (SNP, "            Snapshot::V1(s) => std::mem::take(&mut s.histograms),\n", "            Snapshot::V1(s) => {\n                let mut histograms = std::mem::take(&mut s.histograms);\n                histograms.dedup_by(|a, b| a.name == b.name);\n                histograms\n            }\n"))
bug('x15-compact', 'C15', (SNP, "        rmp_serde::encode::to_vec(val)\n", "        let bytes = rmp_serde::encode::to_vec(val)?;\n        if bytes.len() > u32::MAX as usize {\n            return Ok(Vec::new());\n        }\n        Ok(bytes)\n"))
bug('x15-json-pretty', 'C15', (SNP, "        res.push(b'\\n');\n", "        res.retain(|b| *b != b' ');\n        res.push(b'\\n');\n"))
# ---- C16
bug('x16-empty-metric', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {", "    let Some(name) = metadata.get(\"metric\").filter(|name| !name.is_empty()) else {"))
bug('x16-dedup', 'C16', (SNP, "        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\"", "        if unique_name.ends_with(v) {\n            continue;\n        }\n        unique_name = unique_name + \"/\" + v;\n    }\n\n    // Append \"id\""))
bug('x16-id-zero', 'C16', (SNP, "    if let Some(v) = metadata.get(\"id\") {\n", "    if let Some(v) = metadata.get(\"id\").filter(|v| **v != \"0\") {\n"))
bug('x16-desc', 'C16', (SNP, "\"max_value_power\", \"id\"]", "\"max_value_power\", \"id\", \"description\"]"))
bug('x16-rev-map', 'C16', (SNP, "        .map(|(k, v)| (k.as_str(), v.as_str()))\n        .collect();\n\n    // Separate", "        .map(|(k, v)| (v.as_str(), k.as_str()))\n        .map(|(v, k)| (k, v.trim_end_matches('/')))\n        .collect();\n\n    // Separate"))
bug('x16-thread', 'C16', (SNP, "    unique_name\n}\n", "    if unique_name.len() > 255 {\n        unique_name.truncate(255);\n    }\n\n    unique_name\n}\n"))
# ---- C17
bug('x17-cap-nul', 'C17', (PAR, "        for gauge in gauges {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            self.gauges.entry(name).or_insert(gauge.metadata);\n", "        for gauge in gauges {\n            let name = canonicalize_metric_name(&gauge.name, &gauge.metadata);\n            if self.counters.contains_key(&name) {\n                continue;\n            }\n            self.gauges.entry(name).or_insert(gauge.metadata);\n"))
bug('x17-first-only', 'C17', (PAR, "        for histogram in histograms {\n            let name", "        for histogram in histograms.into_iter().filter(|h| h.value.as_slice().iter().any(|c| *c > 0)) {\n            let name"))
bug('x17-meta-merge', 'C17', (PAR, "            metadata.insert(\"metric_type\".to_string(), \"gauge\".to_string());\n", "            metadata\n                .entry(\"metric_type\".to_string())\n                .or_insert_with(|| \"gauge\".to_string());\n"))
bug('x17-sparse-label', 'C17', (PAR, "                            format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n                            true,\n                        )\n                        .with_metadata(metadata.clone()),", "                            format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n                            true,\n                        )\n                        .with_metadata(HashMap::from([(\"metric_type\".to_string(), \"sparse_histogram\".to_string())])),"))
bug('x17-inner-null', 'C17', (PAR, "                            format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),", "                            format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, false),"))
bug('x17-null-swap', 'C17', (PAR, "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Self::listu64_entry_null(),\n                    ]),", "                    ParquetHistogramType::Sparse => columns.append(&mut vec![\n                        Self::listu64_entry_null(),\n                        Arc::new(UInt64Array::from(vec![None])),\n                    ]),"))
bug('x17-shrink', 'C17', (PAR, "        let batch = RecordBatch", "        columns.truncate(32_767);\n        let batch = RecordBatch"))
bug('x17-retain', 'C17', (PAR, "        let schema = Arc::new(Schema::new(fields));\n", "        fields.dedup_by(|a, b| a.name() == b.name());\n        let schema = Arc::new(Schema::new(fields));\n"))
# ---- C18
bug('x18-sat', 'C18', (PAR, "                .counters\n                .remove(counter)\n                .map(|v| v.value)])));", "                .counters\n                .remove(counter)\n                .map(|v| v.value & (u64::MAX >> 1))])));"))
bug('x18-gauge-none', 'C18', (PAR, "                .remove(gauge)\n                .map(|v| v.value)])));", "                .remove(gauge)\n                .map(|v| v.value)\n                .filter(|v| *v != i64::MIN)])));"))
bug('x18-prefix', 'C18', (PAR, "            let histogram = hs.histograms.remove(h).map(|v| v.value);\n", "            let histogram = hs\n                .histograms\n                .remove(h)\n                .map(|v| v.value)\n                .filter(|h| h.as_slice().iter().any(|c| *c != 0));\n"))
bug('x18-sparse-drop', 'C18', (PAR, "columns.push(Self::listu64_entry_from_slice(sparse.count.as_slice()));", "columns.push(Self::listu64_entry_from_slice(\n                            &sparse.count[..sparse.count.len().min(u16::MAX as usize)],\n                        ));"))
bug('x18-rescale', 'C18', (PAR, "                        columns.push(Self::listu64_entry_from_slice(hist.as_slice()))\n", "                        let hist = hist.downsample(hist.config().grouping_power().min(7)).unwrap_or(hist);\n                        columns.push(Self::listu64_entry_from_slice(hist.as_slice()))\n"))
bug('x18-last-ts', 'C18', (SNP, "            .as_nanos() as u64;\n\n        let duration", "            .as_micros() as u64\n            * 1000;\n\n        let duration"))
bug('x18-dur-micro', 'C18', (SNP, "snapshot.duration().map(|x| x.as_nanos() as u64);", "snapshot.duration().map(|x| x.as_nanos() as u32 as u64);"))
bug('x18-skip-empty', 'C18', (PAR, "        // Create a single element column for the timestamp and duration\n", "        if hs.counters.is_empty() && hs.gauges.is_empty() && hs.histograms.is_empty() {\n            return Ok(());\n        }\n\n        // Create a single element column for the timestamp and duration\n"))
bug('x18-flush', 'C18', (PAR, "        self.writer.write(&batch)\n", "        self.writer.write(&batch.slice(0, batch.num_rows().min(batch.num_columns() - 2)))\n"))
# ---- C19
bug('x19-trunc', 'C19', (CNV, "        while !reader.fill_buf()?.is_empty() {\n            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            writer.push(s)?;\n        }\n", "        let mut rows = 0;\n        while !reader.fill_buf()?.is_empty() {\n            let s: Snapshot = match rmp_serde::from_read(&mut reader) {\n                Ok(s) => s,\n                Err(_) if rows > 0 => break,\n                Err(x) => return Err(ParquetError::External(Box::new(x))),\n            };\n            writer.push(s)?;\n            rows += 1;\n        }\n"))
bug('x19-interrupted', 'C19', (CNV, "        while !reader.fill_buf()?.is_empty() {\n            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);", "        while !match reader.fill_buf() {\n            Ok(buf) => buf.is_empty(),\n            Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => true,\n            Err(e) => return Err(e.into()),\n        } {\n            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema.push(s);"))
bug('x19-empty-ok', 'C19', (CNV, "        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;\n", "        if reader.stream_position()? == start {\n            return Ok(0);\n        }\n        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;\n"))
bug('x19-opts', 'C19', (PAR, "            .set_max_row_group_size(options.max_batch_size)\n", "            .set_max_row_group_size(options.max_batch_size.min(DEFAULT_MAX_BATCH_SIZE))\n"))
bug('x19-zstd', 'C19', (PAR, "            .set_compression(options.compression.inner)\n", "            .set_compression(if self.rows < 16 {\n                Compression::UNCOMPRESSED\n            } else {\n                options.compression.inner\n            })\n"))
ok('x19-path-same', 'C19', (CNV, "        self.convert_file_handle(File::open(input)?, File::create(output)?)\n", "        let output = File::create(output)?;\n        self.convert_file_handle(File::open(input)?, output)\n"))
bug('x19-rows', 'C19', (CNV, "        Ok(metadata.num_rows)\n", "        Ok(metadata.row_groups.first().map_or(0, |group| group.num_rows))\n"))
bug('x19-meta-builder', 'C19', (CNV, "    pub fn metadata(mut self, key: String, value: String) -> Self {\n        self.metadata.insert(key, value);\n", "    pub fn metadata(mut self, key: String, value: String) -> Self {\n        if !value.is_empty() {\n            self.metadata.insert(key, value);\n        }\n"))
bug('x19-with-opts', 'C19', (CNV, "            parquet_options: options,\n", "            parquet_options: options.max_batch_size(50_000),\n"))
bug('x19-assert', 'C19', (PAR, "        let batch = RecordBatch", "        assert!(hs.counters.is_empty(), \"snapshot has counters unknown to the schema\");\n        let batch = RecordBatch"))
bug('x19-row-assert', 'C19', (CNV, "        let metadata = writer.finalize()?;\n", "        let metadata = writer.finalize()?;\n        assert_eq!(metadata.num_rows as usize, metadata.row_groups.iter().map(|g| g.num_rows as usize).sum::<usize>());\n")) if False else None
# ---- C20
bug('x20-entry-pub-field', 'C20', (LIB, "pub struct MetricEntry {\n    metric: *const dyn Metric,", "pub struct MetricEntry {\n    pub metric: *const dyn Metric,"))
bug('x20-metadata-iter', 'C20', (META, "    fn map_iter((key, value): (&'a String, &'a String)) -> (&'a str, &'a str) {\n        (&**key, &**value)", "    fn map_iter((key, value): (&'a String, &'a String)) -> (&'a str, &'a str) {\n        let value = unsafe { std::str::from_utf8_unchecked(&value.as_bytes()[..value.len().min(4096)]) };\n        (&**key, value)"))
bug('x20-copy-raw', 'C20', (HIS, "        buckets.copy_from_slice(data);\n", "        // SAFETY: the lengths were compared above.\n        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), buckets.as_mut_ptr(), data.len() + 1) };\n"))
bug('x20-lazy-mut', 'C20', (LAZ, "        this.cell.get_mut()\n", "        let p: *const T = this.cell.get()?;\n        Some(unsafe { &mut *(p as *mut T) })\n"))
bug('x20-counter-sync', 'C20', (CTR, "pub struct Counter(AtomicU64);", "pub struct Counter(std::cell::Cell<u64>);\nunsafe impl Sync for Counter {}"), (CTR, CADD, "let old = self.0.get();\n        self.0.set(old.wrapping_add(value));\n        old"), (CTR, "self.0.load(Ordering::Relaxed)", "self.0.get()"), (CTR, "self.0.swap(value, Ordering::Relaxed)", "self.0.replace(value)"), (CTR, "Self(AtomicU64::new(value))", "Self(std::cell::Cell::new(value))"), (CTR, "use std::sync::atomic::{AtomicU64, Ordering};\n", ""))
