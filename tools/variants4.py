from variants import *
from variants2 import *
def sec(file, start, end):
    """text of the file from start up to and including end"""
    s = open('/repo/' + file).read(); i = s.index(start); j = s.index(end, i) + len(end)
    return s[i:j]
# ---------------------------------------------------------------- C01 / C02
ok('z01-guard-fn', 'C01', (DYN, "pub(crate) fn unregister(metric: *const dyn Metric) {\n    REGISTRY.write().unregister(metric);\n}", "pub(crate) fn unregister(metric: *const dyn Metric) {\n    with_registry(|registry| registry.unregister(metric));\n}\n\nfn with_registry<R>(f: impl FnOnce(&mut DynMetricsRegistry) -> R) -> R {\n    let mut guard = REGISTRY.write();\n    f(&mut guard)\n}"),
   (DYN, "    REGISTRY.write().register(entry);\n}", "    with_registry(|registry| registry.register(entry));\n}"))
ok('z01-drop-self', 'C01', (DYN, "        unregister(&self.metric);\n", "        self.unregister();\n"), (DYN, "    /// Register this metric in the global list of dynamic metrics with `name`.\n    ///\n    /// Calling this multiple times will result in the same metric being\n    /// registered multiple times under potentially different names.\n    pub fn register(self: Pin<&Self>", "    fn unregister(&self) {\n        let metric: &dyn Metric = &self.metric;\n        unregister(metric as *const dyn Metric);\n    }\n\n    /// Register this metric in the global list of dynamic metrics with `name`.\n    ///\n    /// Calling this multiple times will result in the same metric being\n    /// registered multiple times under potentially different names.\n    pub fn register(self: Pin<&Self>"))
ok('z01-key-type', 'C01', (DYN, "pub(crate) struct DynMetricsRegistry {\n    metrics: BTreeMap<usize, MetricEntry>,", "type Address = usize;\n\npub(crate) struct DynMetricsRegistry {\n    metrics: BTreeMap<Address, MetricEntry>,"), (DYN, "    fn key_for(entry: &MetricEntry) -> usize {\n        entry.metric() as *const dyn Metric as *const () as usize\n    }", "    fn key_for(entry: &MetricEntry) -> Address {\n        Self::address_of(entry.metric())\n    }\n\n    fn address_of(metric: *const dyn Metric) -> Address {\n        metric.cast::<()>() as usize\n    }"),
   (DYN, "        let key = metric as *const () as usize;\n        self.metrics.remove(&key);", "        self.metrics.remove(&Self::address_of(metric));"))
ok('z01-let-removed', 'C01', (DYN, "        self.metrics.remove(&key);", "        let removed = self.metrics.remove(&key);\n        drop(removed);"))
ok('z01-iflet', 'C01', (DYN, "        self.metrics.remove(&key);", "        if let Some(entry) = self.metrics.remove(&key) {\n            debug_assert_eq!(Self::key_for(&entry), key);\n        }"))
ok('z02-new-fn', 'C02', (DYN, "        this.register(entry);\n        this\n", "        this.metric.as_ref().register(entry);\n        this\n"), (DYN, sec(DYN, "    /// Register this metric in the global list of dynamic metrics with `name`.\n    ///\n    /// Calling this multiple times will result in the same metric being\n    /// registered multiple times under potentially different names.\n    fn register(&self", "self.metric.as_ref().register(entry)\n    }\n"), ""))
ok('z02-insert-helper', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);", "        let key = Self::key_for(&entry);\n        if let Some(previous) = self.metrics.insert(key, entry) {\n            drop(previous);\n        }"))
ok('z02-entry-build', 'C02', (DYN, "    pub fn register(self: Pin<&Self>, mut entry: MetricEntry) {\n        entry.metric = &self.metric;\n", "    pub fn register(self: Pin<&Self>, entry: MetricEntry) {\n        let entry = MetricEntry {\n            metric: &self.metric,\n            ..entry\n        };\n"))
ok('z02-getref', 'C02', (DYN, "        entry.metric = &self.metric;\n", "        let this: &Self = self.get_ref();\n        entry.metric = &this.metric as *const dyn Metric;\n"))
# ---------------------------------------------------------------- C03
ok('z03-helper', 'C03', (MET, "        MetricsIter::new(self.static_metrics(), self.dyn_metrics.metrics())", "        let sm = self.static_metrics();\n        let dm = self.dyn_metrics.metrics();\n        MetricsIter {\n            sm: sm.iter(),\n            dm: dm.values(),\n        }"), (MET, sec(MET, "impl<'a> MetricsIter<'a> {\n", "\n}\n"), ""), (MET, "use std::collections::BTreeMap;\n", ""))
ok('z03-match-next', 'C03', (MET, "        self.dm.next_back().or_else(|| self.sm.next_back())", "        if let Some(entry) = self.dm.next_back() {\n            return Some(entry);\n        }\n\n        self.sm.next_back()"))
ok('z03-hint-let', 'C03', (MET, "        match (shi, dhi) {\n            (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),\n            _ => (slo.saturating_add(dlo), None),\n        }", "        let lo = slo.saturating_add(dlo);\n        let hi = shi.zip(dhi).and_then(|(s, d)| s.checked_add(d));\n\n        (lo, hi)"))
ok('z03-hint-question', 'C03', (MET, "        match (shi, dhi) {\n            (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),\n            _ => (slo.saturating_add(dlo), None),\n        }", "        let hi = match shi {\n            Some(s) => dhi.and_then(|d| s.checked_add(d)),\n            None => None,\n        };\n\n        (slo.saturating_add(dlo), hi)"))
ok('z03-nth-if', 'C03', (MET, NTH, "let statics = self.sm.len();\n        match self.sm.nth(n) {\n            Some(entry) => Some(entry),\n            None => self.dm.nth(n - statics),\n        }"))
ok('z03-rfold-loop', 'C03', (MET, "        let init = self.dm.rfold(init, &mut f);\n        self.sm.rfold(init, f)", "        let mut acc = init;\n        for entry in self.dm.rev() {\n            acc = f(acc, entry);\n        }\n        for entry in self.sm.rev() {\n            acc = f(acc, entry);\n        }\n        acc"))
ok('z03-macro', 'C03', (MET, "    fn next(&mut self) -> Option<Self::Item> {\n        self.0.next()\n    }", "    #[inline]\n    fn next(&mut self) -> Option<Self::Item> {\n        let Self(values) = self;\n        values.next()\n    }"))
ok('z03-values-fn', 'C03', (MET, "        DynMetricsIter(self.dyn_metrics.metrics().values())", "        let entries = self.dyn_metrics.metrics();\n        DynMetricsIter(entries.values())"))
# ---------------------------------------------------------------- C04
ok('z04-registry-var', 'C04', (DYN, "    REGISTRY.write().register(entry);", "    let mut registry = REGISTRY.write();\n    registry.register(entry);"), (DYN, "    REGISTRY.write().unregister(metric);", "    let mut registry = REGISTRY.write();\n    registry.unregister(metric);\n    drop(registry);"))
ok('z04-metrics-let', 'C04', (MET, "    Metrics {\n        dyn_metrics: crate::dynmetrics::get_registry(),\n    }", "    let dyn_metrics = crate::dynmetrics::get_registry();\n    Metrics { dyn_metrics }"))
ok('z04-snap-listing', 'C04', (SNR, "        for metric in &metriken::metrics() {", "        let listing = metriken::metrics();\n        let mut entries = listing.iter();\n        while let Some(metric) = entries.next() {"))
ok('z04-hist-scope', 'C04', (HIS, "        self.inner.get().map(|h| h.read().clone())", "        let lock = self.inner.get()?;\n        let histogram = {\n            let guard = lock.read();\n            guard.clone()\n        };\n        Some(histogram)"))
# ---------------------------------------------------------------- C05
ok('z05-ifmatch', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n\n        self", "        if let Some(res) = self.0.downcast_mut::<I>() {\n            if res.0.is_none() {\n                res.0 = Some(fulfil());\n            }\n        }\n\n        self"))
ok('z05-replace', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n\n        self", "        match self.0.downcast_mut::<I>() {\n            Some(TaggedOption(slot @ None)) => {\n                let value = fulfil();\n                slot.replace(value);\n            }\n            Some(TaggedOption(Some(_))) | None => {}\n        }\n\n        self"))
ok('z05-would', 'C05', (PROV, "        matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))", "        self.0\n            .downcast::<I>()\n            .is_some_and(|slot| slot.0.is_none())"))
ok('z05-is-fn', 'C05', (PROV, "    /// Returns a reference to the dynamic value if it is tagged with `I` or\n    /// `None` otherwise.\n", "    fn is_tagged<I: tags::Type<'a>>(&self) -> bool {\n        TypeId::of::<I>() == self.tag_id()\n    }\n\n    /// Returns a reference to the dynamic value if it is tagged with `I` or\n    /// `None` otherwise.\n"), (PROV, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: We just checked", "        if self.is_tagged::<I>() {\n            // SAFETY: We just checked"), (PROV, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: Just checked whether we're pointing to an I.\n            Some(unsafe { &mut *(self as *mut Self).cast::<TaggedOption<'a, I>>() })\n        } else {\n            None\n        }", "        if !self.is_tagged::<I>() {\n            return None;\n        }\n\n        // SAFETY: Just checked whether we're pointing to an I.\n        Some(unsafe { &mut *(self as *mut Self).cast::<TaggedOption<'a, I>>() })"))
ok('z05-map-let', 'C05', (PROV, "        if let Some(element) = self.0.get(&request.0.tag_id()) {\n            Self::provide_dyn(&**element, request);\n        }", "        let tag = request.0.tag_id();\n        let Some(element) = self.0.get(&tag) else {\n            return;\n        };\n\n        Self::provide_dyn(element.as_ref(), request);"))
# ---------------------------------------------------------------- C06
ok('z06-macro-forward', 'C06', (WRAP, "    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled()\n    }\n\n    fn as_any(&self) -> Option<&dyn std::any::Any> {\n        self.metric.as_any()\n    }\n\n    fn value(&self) -> Option<crate::Value> {\n        self.metric.value()\n    }\n", "    forward! {\n        is_enabled -> bool;\n        as_any -> Option<&dyn std::any::Any>;\n        value -> Option<crate::Value>;\n    }\n"), (WRAP, "impl<M, P> Metric for MetricWrapper<M, P>", "macro_rules! forward {\n    ($($name:ident -> $ret:ty;)*) => {\n        $(fn $name(&self) -> $ret {\n            self.metric.$name()\n        })*\n    };\n}\n\nimpl<M, P> Metric for MetricWrapper<M, P>"))
ok('z06-inner-fn', 'C06', (LAZ, "    fn is_enabled(&self) -> bool {\n        Lazy::get(self).map_or(false, |metric| metric.is_enabled())\n    }", "    fn is_enabled(&self) -> bool {\n        match Lazy::get(self) {\n            Some(metric) => metric.is_enabled(),\n            None => false,\n        }\n    }"), (LAZ, "        if let Some(metric) = Lazy::get(self) {\n            metric.provide(request);\n        }", "        let Some(metric) = Self::get(self) else {\n            return;\n        };\n        metric.provide(request);"))
ok('z06-formatted', 'C06', (LIB, sec(LIB, "        let formatter = self\n            .request_value", "        formatter(self, format)\n"), "        use crate::wrapper::FormattingFn;\n\n        if let Some(FormattingFn(func)) = self.request_value::<FormattingFn>() {\n            return func(self, format);\n        }\n\n        match self.request_ref::<FormattingFn>() {\n            Some(FormattingFn(func)) => func(self, format),\n            None => crate::default_formatter(self, format),\n        }\n"))
ok('z06-deref-chain', 'C06', (DYN, "    fn deref(&self) -> &Self::Target {\n        &self.metric.metric\n    }", "    fn deref(&self) -> &Self::Target {\n        let ProviderMetric { metric, .. } = &self.metric;\n        metric\n    }"), (DYN, "    fn deref(&self) -> &Self::Target {\n        &self.metric\n    }", "    fn deref(&self) -> &Self::Target {\n        self.metric.as_ref().get_ref()\n    }"))
# ---------------------------------------------------------------- C07
ok('z07-meta-let', 'C07', (DYN, "        self.provider.insert(Metadata::new(self.metadata));\n\n        let metric = DynPinnedMetric::new_v2(metric, self.provider);\n        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        };\n\n        (metric, entry)", "        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        };\n\n        let metadata = Metadata::from(self.metadata);\n        self.provider.insert(metadata);\n\n        (DynPinnedMetric::new_v2(metric, self.provider), entry)"))
ok('z07-entry-helper', 'C07', (DYN, "        let entry = MetricEntry {\n            metric: &NullMetric,\n            name: self.name,\n            description: self.desc,\n        };\n\n        (metric, entry)", "        let entry = Self::unbound_entry(self.name, self.desc);\n\n        (metric, entry)"), (DYN, "    /// Build a [`DynPinnedMetric`] for use with this builder.\n", "    fn unbound_entry(\n        name: Cow<'static, str>,\n        description: Option<Cow<'static, str>>,\n    ) -> MetricEntry {\n        MetricEntry {\n            metric: &NullMetric,\n            name,\n            description,\n        }\n    }\n\n    /// Build a [`DynPinnedMetric`] for use with this builder.\n"))
ok('z07-setters', 'C07', (DYN, "        self.desc = Some(desc.into());\n        self", "        let desc: Cow<'static, str> = desc.into();\n        self.desc.replace(desc);\n        self"), (DYN, "        self.metadata.insert(key.into(), value.into());\n        self", "        let (key, value): (String, String) = (key.into(), value.into());\n        self.metadata.insert(key, value);\n        self"))
ok('z07-consume', 'C07', (DYN, "    pub fn build<T: Metric>(self, metric: T) -> DynBoxedMetric<T> {\n        let (metric, entry) = self.build_pinned(metric);\n        DynBoxedMetric::from_pinned(metric, entry)", "    pub fn build<T: Metric>(self, metric: T) -> DynBoxedMetric<T> {\n        let (pinned, entry) = self.build_pinned(metric);\n        let boxed = DynBoxedMetric {\n            metric: Box::pin(pinned),\n        };\n        boxed.register(entry);\n        boxed"))
ok('z07-self-literal', 'C07', (DYN, "    pub fn description(mut self, desc: impl Into<Cow<'static, str>>) -> Self {\n        self.desc = Some(desc.into());\n        self\n    }", "    pub fn description(self, desc: impl Into<Cow<'static, str>>) -> Self {\n        let Self {\n            name,\n            provider,\n            metadata,\n            ..\n        } = self;\n\n        Self {\n            name,\n            desc: Some(desc.into()),\n            provider,\n            metadata,\n        }\n    }"))
# ---------------------------------------------------------------- C08
ok('z08-name-fn', 'C08', (DER, "    let name: syn::Expr = args.name.map(|name| name.value).unwrap_or_else(|| {\n        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());\n        parse_quote!(#name)\n    });", "    let name: syn::Expr = match args.name {\n        Some(arg) => arg.value,\n        None => default_name(static_name),\n    };"), (DER, "pub(crate) fn metric(", "fn default_name(ident: &Ident) -> Expr {\n    let name = syn::LitStr::new(&ident.to_string(), ident.span());\n    parse_quote!(#name)\n}\n\npub(crate) fn metric("))
ok('z08-attrs-loop', 'C08', (DER, sec(DER, "    let attrs: Vec<_> = metadata\n", "        .collect();\n"), "    let mut attrs = Vec::new();\n    for entry in metadata.0.into_values() {\n        let key = entry.name.to_literal();\n        let value = entry.value;\n\n        attrs.push(quote!( #key => #value ));\n    }\n"))
ok('z08-meta-build', 'C08', (DER, "    let mut metadata = MetadataMap::default();\n    if let Some(data) = args.metadata {\n        for entry in data.value.entries {\n            metadata.insert(entry)?;\n        }\n    }\n", "    let mut metadata = MetadataMap::default();\n    let entries = args.metadata.into_iter().flat_map(|data| data.value.entries);\n    for entry in entries {\n        metadata.insert(entry)?;\n    }\n"))
ok('z08-tryfor', 'C08', (DER, "        for entry in data.value.entries {\n            metadata.insert(entry)?;\n        }\n", "        data.value\n            .entries\n            .into_iter()\n            .try_for_each(|entry| metadata.insert(entry))?;\n"))
ok('z08-unknown-fn', 'C08', (DER, "                _ => {\n                    return Err(syn::Error::new(\n                        arg.span(),\n                        format!(\"unknown argument `{arg}`\"),\n                    ))\n                }", "                other => {\n                    let message = format!(\"unknown argument `{other}`\");\n                    return Err(syn::Error::new(arg.span(), message));\n                }"))
# ---------------------------------------------------------------- C09
ok('z09-macro', 'C09', (META, "    pub fn is_empty(&self) -> bool {\n        match &self.0 {\n            Impl::Static(map) => map.is_empty(),\n            Impl::Dynamic(map) => map.is_empty(),\n        }\n    }", "    pub fn is_empty(&self) -> bool {\n        either!(&self.0, map => map.is_empty())\n    }"), (META, "impl Metadata {\n    /// Create a new", "macro_rules! either {\n    ($value:expr, $map:ident => $body:expr) => {\n        match $value {\n            Impl::Static($map) => $body,\n            Impl::Dynamic($map) => $body,\n        }\n    };\n}\n\nimpl Metadata {\n    /// Create a new"), (META, "    pub fn len(&self) -> usize {\n        match &self.0 {\n            Impl::Static(map) => map.len(),\n            Impl::Dynamic(map) => map.len(),\n        }\n    }", "    pub fn len(&self) -> usize {\n        either!(&self.0, map => map.len())\n    }"))
ok('z09-get-map', 'C09', (META, "            Impl::Static(map) => map.get(key).copied(),\n            Impl::Dynamic(map) => map.get(key).map(|s| &**s),", "            Impl::Static(map) => map.get(key).map(|value| *value),\n            Impl::Dynamic(map) => map.get(key).map(String::as_str),"))
ok('z09-iter-self', 'C09', (META, "        MetadataIter(match &self.0 {\n            Impl::Static(map) => IterImpl::Static(map.entries()),\n            Impl::Dynamic(map) => IterImpl::Dynamic(map.iter()),\n        })", "        match &self.0 {\n            Impl::Static(map) => MetadataIter(IterImpl::Static(map.entries())),\n            Impl::Dynamic(map) => MetadataIter(IterImpl::Dynamic(map.iter())),\n        }"))
ok('z09-from-new', 'C09', (META, "    fn from(value: HashMap<String, String>) -> Self {\n        Self(Impl::Dynamic(value))\n    }", "    fn from(value: HashMap<String, String>) -> Self {\n        Self::new(value)\n    }"), (META, "        Self(Impl::Dynamic(map))\n", "        let inner = Impl::Dynamic(map);\n        Self(inner)\n"))
ok('z09-fold-map', 'C09', (META, "            IterImpl::Static(iter) => iter.fold(init, move |acc, (k, v)| f(acc, (*k, *v))),\n            IterImpl::Dynamic(iter) => iter.fold(init, move |acc, (k, v)| f(acc, (&**k, &**v))),", "            IterImpl::Static(iter) => iter.map(Self::map_entries).fold(init, f),\n            IterImpl::Dynamic(iter) => iter.map(Self::map_iter).fold(init, f),"), (META, "    fn fold<B, F>(self, init: B, mut f: F) -> B", "    fn fold<B, F>(self, init: B, f: F) -> B"))
ok('z09-skip-next', 'C09', (META, "            IterImpl::Dynamic(iter) => iter.nth(n).map(Self::map_iter),", "            IterImpl::Dynamic(iter) => iter.skip(n).next().map(Self::map_iter),"))
# ---------------------------------------------------------------- C10
ok('z10-early', 'C10', (FMT, sec(FMT, "            let metadata: Vec<String> = metric\n", "                format!(\"{}{{{metadata}}}\", metric.name())\n            }\n"), "            if metric.metadata().is_empty() {\n                return metric.name().to_string();\n            }\n\n            let labels = metric\n                .metadata()\n                .iter()\n                .map(|(key, value)| format!(\"{key}=\\\"{}\\\"\", escape_label_value(value)))\n                .collect::<Vec<_>>()\n                .join(\", \");\n\n            format!(\"{}{{{labels}}}\", metric.name())\n"))
ok('z10-fn-arms', 'C10', (FMT, sec(FMT, "            let metadata: Vec<String> = metric\n", "                format!(\"{}{{{metadata}}}\", metric.name())\n            }\n"), "            prometheus(metric)\n"), (FMT, "/// Escape a label value", "fn prometheus(metric: &MetricEntry) -> String {\n    let labels = metric\n        .metadata()\n        .into_iter()\n        .map(label)\n        .collect::<Vec<String>>();\n\n    if labels.is_empty() {\n        String::from(metric.name())\n    } else {\n        format!(\"{}{{{}}}\", metric.name(), labels.join(\", \"))\n    }\n}\n\nfn label((key, value): (&str, &str)) -> String {\n    format!(\"{}=\\\"{}\\\"\", key, escape_label_value(value))\n}\n\n/// Escape a label value"))
ok('z10-simple-own', 'C10', (FMT, "        _ => metric.name().to_string(),", "        _ => metric.name().to_owned(),"), (FMT, "                metric.name().to_string()\n", "                String::from(metric.name())\n"))
ok('z10-match-simple', 'C10', (FMT, "        _ => metric.name().to_string(),", "        Format::Simple => String::from(metric.name()),"))
# ---------------------------------------------------------------- C11
ok('z11-free-fn', 'C11', (CTR, "        self.0.fetch_add(value, Ordering::Relaxed)", "        let cell = &self.0;\n        cell.fetch_add(value, ORDER)"), (CTR, "#[derive(Default, Debug)]\npub struct Counter", "const ORDER: Ordering = Ordering::Relaxed;\n\n#[derive(Default, Debug)]\npub struct Counter"))
ok('z11-named-field', 'C11', (CTR, "pub struct Counter(AtomicU64);", "pub struct Counter {\n    value: AtomicU64,\n}"), (CTR, "        Self(AtomicU64::new(value))", "        Self {\n            value: AtomicU64::new(value),\n        }"), (CTR, "self.0.fetch_add", "self.value.fetch_add"), (CTR, "self.0.load", "self.value.load"), (CTR, "self.0.swap", "self.value.swap"))
ok('z11-seqcst', 'C11', (GAU, "self.0.fetch_sub(value, Ordering::Relaxed)", "self.0.fetch_sub(value, Ordering::AcqRel)"), (GAU, "self.0.load(Ordering::Relaxed)", "self.0.load(Ordering::Acquire)"))
ok('z11-reset-direct', 'C11', (GAU, "        self.set(0)", "        self.0.swap(0, Ordering::Relaxed)"), (CTR, "        self.set(0)", "        const ZERO: u64 = 0;\n        let previous = self.set(ZERO);\n        previous"))
ok('z11-metric-value', 'C11', (CTR, "        Some(Value::Counter(self.value()))", "        let value = Counter::value(self);\n        Some(Value::Counter(value))"), (GAU, "        Some(Value::Gauge(self.value()))", "        Some(self.0.load(Ordering::Relaxed)).map(Value::Gauge)"))
ok('z11-match-cas', 'C11', (CTR, "        self.0.fetch_add(value, Ordering::Relaxed)", "        let mut current = self.0.load(Ordering::Relaxed);\n        while let Err(actual) = self.0.compare_exchange_weak(\n            current,\n            current.wrapping_add(value),\n            Ordering::Relaxed,\n            Ordering::Relaxed,\n        ) {\n            current = actual;\n        }\n        current"))
ok('z11-fetch-update', 'C11', (GAU, "        self.0.fetch_sub(value, Ordering::Relaxed)", "        match self\n            .0\n            .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |old| {\n                Some(old.wrapping_sub(value))\n            }) {\n            Ok(old) | Err(old) => old,\n        }"))
# ---------------------------------------------------------------- C12
ok('z12-init-fn', 'C12', (LAZ, sec(LAZ, "        this.cell.get_or_init(|| {\n", "            func()\n        })"), "        if let Some(value) = this.cell.get() {\n            return value;\n        }\n\n        this.cell.get_or_init(|| match this.func.take() {\n            Some(init) => init(),\n            None => panic!(\"Lazy instance has previously been poisoned\"),\n        })"))
ok('z12-expect', 'C12', (LAZ, "            let func = this\n                .func\n                .take()\n                .unwrap_or_else(|| panic!(\"Lazy instance has previously been poisoned\"));\n\n            func()", "            let init = this\n                .func\n                .take()\n                .expect(\"Lazy instance has previously been poisoned\");\n            init()"))
ok('z12-derefmut', 'C12', (LAZ, "        Self::force(self);\n        self.cell.get_mut().unwrap_or_else(|| unreachable!())", "        let _ = Self::force(self);\n        match Self::get_mut(self) {\n            Some(value) => value,\n            None => unreachable!(),\n        }"))
ok('z12-replace', 'C12', (LAZ, "                .func\n                .take()\n", "                .func\n                .replace(None)\n"))
ok('z12-enabled', 'C12', (LAZ, "        Lazy::get(self).map_or(false, |metric| metric.is_enabled())", "        Lazy::get(self).is_some_and(Metric::is_enabled)"), (LAZ, "        Lazy::get(self).and_then(|metric| metric.as_any())", "        let metric = Lazy::get(self)?;\n        metric.as_any()"))
# ---------------------------------------------------------------- C13
ok('z13-config-fn', 'C13', (HIS, "        let config = match ::histogram::Config::new(grouping_power, max_value_power) {\n            Ok(c) => c,\n            Err(_) => panic!(\"invalid histogram config\"),\n        };\n\n        Self {\n            inner: OnceLock::new(),\n            config,\n        }", "        Self {\n            inner: OnceLock::new(),\n            config: checked_config(grouping_power, max_value_power),\n        }"), (HIS, "        let config = match ::histogram::Config::new(grouping_power, max_value_power) {\n            Ok(c) => c,\n            Err(_e) => panic!(\"invalid histogram config\"),\n        };\n\n        Self {\n            inner: OnceLock::new(),\n            config,\n        }", "        let config = checked_config(grouping_power, max_value_power);\n\n        Self {\n            inner: OnceLock::new(),\n            config,\n        }"), (HIS, "/// A histogram that uses free-running atomic counters", "const fn checked_config(grouping_power: u8, max_value_power: u8) -> Config {\n    match Config::new(grouping_power, max_value_power) {\n        Ok(config) => config,\n        Err(_) => panic!(\"invalid histogram config\"),\n    }\n}\n\n/// A histogram that uses free-running atomic counters"))
ok('z13-update-guard', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n\n        Ok(())", "        let lock = self.get_or_init();\n        let mut guard = lock.write();\n        guard.as_mut_slice().clone_from_slice(data);\n        drop(guard);\n\n        Ok(())"))
ok('z13-check-fn', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n", "        self.check_len(data)?;\n"), (HIS, "    /// Updates the histogram counts from raw data.\n", "    fn check_len(&self, data: &[u64]) -> Result<(), Error> {\n        if data.len() == self.config.total_buckets() {\n            Ok(())\n        } else {\n            Err(Error::IncompatibleParameters)\n        }\n    }\n\n    /// Updates the histogram counts from raw data.\n"))
ok('z13-init-block', 'C13', (HIS, "            .get_or_init(|| ::histogram::Histogram::with_config(&self.config).into())", "            .get_or_init(|| {\n                let histogram = Histogram::with_config(&self.config);\n                RwLock::new(histogram)\n            })"))
ok('z13-load-fn', 'C13', (HIS, "        self.inner.get().map(|h| h.load())", "        self.inner.get().map(::histogram::AtomicHistogram::load)"))
