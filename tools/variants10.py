from variants import *
from variants9 import sec
# ---- listing
ok('m03-chain-field', 'C03',
   (MET, "        self.sm.next().or_else(|| self.dm.next())\n", "        let next = self.sm.next();\n        if next.is_some() {\n            return next;\n        }\n        self.dm.next()\n"),
   (MET, "        self.dm.next_back().or_else(|| self.sm.next_back())\n", "        match self.dm.next_back() {\n            None => self.sm.next_back(),\n            entry => entry,\n        }\n"))
ok('m03-hint-zip', 'C03', (MET, "        match (shi, dhi) {\n            (Some(shi), Some(dhi)) => (slo.saturating_add(dlo), shi.checked_add(dhi)),\n            _ => (slo.saturating_add(dlo), None),\n        }\n",
   "        let hi = shi.zip(dhi).and_then(|(s, d)| s.checked_add(d));\n        (slo.saturating_add(dlo), hi)\n"))
ok('m03-lens', 'C03', (MET, sec(MET, "        let (slo, shi) = self.sm.size_hint();\n", "    }\n\n    fn nth(&mut self"), "        let remaining = self.sm.len() + self.dm.len();\n        (remaining, Some(remaining))\n"))
ok('m03-nth-sub', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        match n.checked_sub(self.sm.len()) {\n            None => self.sm.nth(n),\n            Some(skip) => {\n                self.sm = [].iter();\n                self.dm.nth(skip)\n            }\n        }\n"))
ok('m03-count-fold', 'C03', (MET, "        self.sm.count() + self.dm.count()\n", "        self.fold(0, |n, _| n + 1)\n"))
ok('m03-dyn-iter', 'C03', (MET, "        MetricsIter::new(self.static_metrics(), self.dyn_metrics.metrics())\n", "        let registry = &*self.dyn_metrics;\n        MetricsIter {\n            sm: self.static_metrics().iter(),\n            dm: registry.metrics().values(),\n        }\n"))
bug('m03-nth-eq', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        match n.checked_sub(self.sm.len()) {\n            None => self.sm.nth(n),\n            Some(skip) => self.dm.nth(skip),\n        }\n"))
ok('m03-nth-gt', 'C03', (MET, "        let len = self.sm.len();\n        self.sm.nth(n).or_else(|| self.dm.nth(n - len))\n", "        let len = self.sm.len();\n        if n > len {\n            self.sm = [].iter();\n            return self.dm.nth(n - len);\n        }\n        self.sm.nth(n).or_else(|| self.dm.next())\n"))
bug('m03-hint-lo', 'C03', (MET, "            _ => (slo.saturating_add(dlo), None),", "            _ => (slo.saturating_add(dlo), None),\n        }\n    }\n\n    fn last(mut self) -> Option<Self::Item> {\n        match self.dm.next() {\n            Some(entry) => Some(entry),\n            None => self.sm.next_back(),"))
# ---- provide
ok('m05-tagged-as', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n", "        match self.0.downcast_mut::<I>() {\n            Some(tagged) if tagged.0.is_none() => tagged.0 = Some(fulfil()),\n            _ => {}\n        }\n"))
ok('m05-would', 'C05', (PROV, "        matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))\n", "        match self.0.downcast::<I>() {\n            Some(tagged) => tagged.0.is_none(),\n            None => false,\n        }\n"))
ok('m05-letelse', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n\n        self\n", "        let Some(slot) = self.0.downcast_mut::<I>() else {\n            return self;\n        };\n        slot.0.get_or_insert_with(fulfil);\n        self\n"))
ok('m05-pmap', 'C05', (PROV, "        if let Some(element) = self.0.get(&request.0.tag_id()) {\n            Self::provide_dyn(&**element, request);\n        }\n", "        let tag = request.0.tag_id();\n        let Some(element) = self.0.get(&tag) else {\n            return;\n        };\n        element.as_ref().provide(request);\n"))
bug('m05-pmap-all', 'C07', (PROV, "    pub fn insert<T: Provide>(&mut self, value: T) {\n        self.0.insert(Self::typeid_for::<T>(), Box::new(value));\n", "    pub fn insert<T: Provide>(&mut self, value: T) {\n        self.0\n            .entry(Self::typeid_for::<T>())\n            .or_insert_with(|| Box::new(value));\n"))
bug('m05-would-some', 'C05', (PROV, "        matches!(self.0.downcast::<I>(), Some(TaggedOption(None)))\n", "        matches!(self.0.downcast::<I>(), Some(TaggedOption(_)))\n"))
# ---- metadata
ok('m09-get-find', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),\n", "            Impl::Dynamic(map) => map.get(key).map(String::as_str),\n"))
ok('m09-contains-get', 'C09', (META, "            Impl::Static(map) => map.contains_key(key),\n            Impl::Dynamic(map) => map.contains_key(key),\n        }\n", "            Impl::Static(map) => map.get(key).is_some(),\n            Impl::Dynamic(map) => map.get(key).is_some(),\n        }\n"))
ok('m09-fold-self', 'C09', (META, sec(META, "        match self.0 {\n            IterImpl::Static(iter) => iter.fold", "    }\n\n    fn count(self)"), "        match self.0 {\n            IterImpl::Static(iter) => iter.map(Self::map_entries).fold(init, f),\n            IterImpl::Dynamic(iter) => iter.map(Self::map_iter).fold(init, f),\n        }\n"), (META, "    fn fold<B, F>(self, init: B, mut f: F) -> B", "    fn fold<B, F>(self, init: B, f: F) -> B"))
bug('m09-nocase', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),\n", "            Impl::Dynamic(map) => map\n                .iter()\n                .find(|(k, _)| k.eq_ignore_ascii_case(key))\n                .map(|(_, v)| &**v),\n"))
bug('m09-clone-empty', 'C09', (META, "            Impl::Static(map) => map.is_empty(),\n            Impl::Dynamic(map) => map.is_empty(),\n", "            Impl::Static(map) => map.is_empty(),\n            Impl::Dynamic(map) => map.values().all(|v| v.is_empty()),\n"))
# ---- formatter
ok('m10-any', 'C10', (FMT, sec(FMT, "            let metadata: Vec<String> = metric\n", "        }\n        _ =>"), """            let mut text = String::from(metric.name());
            let mut separator = "{";
            for (key, value) in metric.metadata() {
                text.push_str(separator);
                text.push_str(key);
                text.push_str("=\\"");
                text.push_str(&escape_label_value(value));
                text.push('"');
                separator = ", ";
            }
            if separator == ", " {
                text.push('}');
            }
            text
"""))
ok('m10-match-empty', 'C10', (FMT, "            if metadata.is_empty() {\n                metric.name().to_string()\n            } else {\n                format!(\"{}{{{metadata}}}\", metric.name())\n            }\n", "            match metadata.as_str() {\n                \"\" => metric.name().to_string(),\n                labels => format!(\"{}{{{labels}}}\", metric.name()),\n            }\n"))
ok('m10-meta-empty', 'C10', (FMT, "            if metadata.is_empty() {\n", "            if metric.metadata().is_empty() {\n"))
ok('m10-len', 'C10', (FMT, "            let metadata = metadata.join(\", \");\n\n            if metadata.is_empty() {\n                metric.name().to_string()\n            } else {\n                format!(\"{}{{{metadata}}}\", metric.name())\n            }\n", "            let name = metric.name();\n            match metadata.len() {\n                0 => name.to_owned(),\n                _ => format!(\"{}{{{}}}\", name, metadata.join(\", \")),\n            }\n"))
bug('m10-len1', 'C10', (FMT, "            let metadata = metadata.join(\", \");\n\n            if metadata.is_empty() {\n", "            let labels = metadata.len();\n            let metadata = metadata.join(\", \");\n\n            if labels <= 1 && metadata.ends_with(\"=\\\"\\\"\") {\n"))
bug('m10-cr', 'C10', (FMT, "        .replace('\\n', \"\\\\n\")\n", "        .replace(\"\\r\\n\", \"\\\\n\")\n        .replace('\\n', \"\\\\n\")\n"))
bug('m10-lines', 'C10', (FMT, "        .replace('\\n', \"\\\\n\")\n", "        .lines()\n        .collect::<Vec<_>>()\n        .join(\"\\\\n\")\n"))
# ---- values
ok('m11-trait', 'C11', (GAU, "        self.0.fetch_sub(value, Ordering::Relaxed)\n", "        let delta = value.wrapping_neg();\n        self.add(delta)\n"))
ok('m11-set-loop', 'C11', (GAU, "        self.0.swap(value, Ordering::Relaxed)\n", "        let mut current = self.0.load(Ordering::Relaxed);\n        while let Err(seen) =\n            self.0\n                .compare_exchange_weak(current, value, Ordering::Relaxed, Ordering::Relaxed)\n        {\n            current = seen;\n        }\n        current\n"))
bug('m11-set-once', 'C11', (GAU, "        self.0.swap(value, Ordering::Relaxed)\n", "        let current = self.0.load(Ordering::Relaxed);\n        match self\n            .0\n            .compare_exchange(current, value, Ordering::Relaxed, Ordering::Relaxed)\n        {\n            Ok(previous) => previous,\n            Err(previous) => previous,\n        }\n"))
bug('m11-noop', 'C11', (GAU, "        self.0.swap(value, Ordering::Relaxed)\n", "        let current = self.value();\n        if current == value {\n            return current;\n        }\n        self.0.swap(value, Ordering::Relaxed)\n"))
# ---- lazy
ok('m12-match', 'C12', (LAZ, "        Lazy::get(self).map_or(false, |metric| metric.is_enabled())\n", "        match self.cell.get() {\n            Some(metric) => metric.is_enabled(),\n            None => false,\n        }\n"))
ok('m12-is-some-and', 'C12', (LAZ, "        Lazy::get(self).map_or(false, |metric| metric.is_enabled())\n", "        Lazy::get(self).is_some_and(T::is_enabled)\n"))
ok('m12-fnmatch', 'C12', (LAZ, sec(LAZ, "            let func = this\n", "        })\n"), "            match this.func.replace(None) {\n                Some(func) => func(),\n                None => panic!(\"Lazy instance has previously been poisoned\"),\n            }\n"))
bug('m12-try', 'C12', (LAZ, "        this.cell.get_or_init(|| {\n", "        if let Some(value) = this.cell.get() {\n            return value;\n        }\n        let _ = this.cell.set(this.func.take().unwrap()());\n        this.cell.get_or_init(|| {\n"))
bug('m12-value-force', 'C12', (LAZ, "    fn value(&self) -> Option<crate::Value> {\n        Lazy::get(self).and_then(|metric| metric.value())\n", "    fn value(&self) -> Option<crate::Value> {\n        if self.is_enabled() {\n            self.cell.get().and_then(|metric| metric.value())\n        } else {\n            None\n        }\n"))
# ---- histograms
ok('m13-len-let', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n\n        let mut histogram = self.get_or_init().write();\n\n        let buckets = histogram.as_mut_slice();\n        buckets.copy_from_slice(data);\n\n        Ok(())\n",
  "        let expected = self.config().total_buckets();\n        if expected == data.len() {\n            self.get_or_init()\n                .write()\n                .as_mut_slice()\n                .copy_from_slice(data);\n            Ok(())\n        } else {\n            Err(Error::IncompatibleParameters)\n        }\n"))
ok('m13-clone-from', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        buckets.clone_from_slice(data);\n"))
ok('m13-iter-mut', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = *count;\n        }\n"))
bug('m13-max', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            *bucket = (*bucket).max(*count);\n        }\n"))
bug('m13-skip-zero', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            if *count != 0 {\n                *bucket = *count;\n            }\n        }\n"))
bug('m13-all-zero', 'C13', (HIS, "        let mut histogram = self.get_or_init().write();\n\n", "        if data.iter().all(|c| *c == 0) {\n            return Ok(());\n        }\n\n        let mut histogram = self.get_or_init().write();\n\n"))
# ---- derive
ok('m08-args-fn', 'C08', (DER, "    let mut metadata = MetadataMap::default();\n    if let Some(data) = args.metadata {\n        for entry in data.value.entries {\n            metadata.insert(entry)?;\n        }\n    }\n", "    let metadata = MetadataMap::collect(args.metadata.map(|data| data.value))?;\n"),
   (DER, "impl MetadataMap {\n", "impl MetadataMap {\n    fn collect(declared: Option<Metadata>) -> syn::Result<Self> {\n        let mut map = Self::default();\n        for entry in declared.into_iter().flat_map(|m| m.entries) {\n            map.insert(entry)?;\n        }\n        Ok(map)\n    }\n\n"))
ok('m08-dup-contains', 'C08', (DER, sec(DER, "        match self.0.entry(entry.name.value()) {\n", "        Ok(())\n    }\n}\n\npub(crate)"), "        let key = entry.name.value();\n        if self.0.contains_key(&key) {\n            return Err(syn::Error::new_spanned(\n                &entry.name,\n                format_args!(\"duplicate metadata entry `{key}`\"),\n            ));\n        }\n        self.0.insert(key, entry);\n"),
   (DER, "use std::collections::btree_map::Entry;\n", ""))
bug('m08-empty-desc', 'C08', (DER, "        .map(|SingleArg { value, .. }| parse_quote!(Some(#value)))\n", "        .map(|SingleArg { value, .. }| match &value {\n            Expr::Lit(syn::ExprLit {\n                lit: syn::Lit::Str(text),\n                ..\n            }) if text.value().is_empty() => parse_quote!(None),\n            _ => parse_quote!(Some(#value)),\n        })\n"))
bug('m08-raw-ident', 'C08', (DER, "        let name = syn::LitStr::new(&static_name.to_string(), static_name.span());\n", "        let text = static_name.to_string();\n        let name = syn::LitStr::new(text.trim_start_matches('_'), static_name.span());\n"))
# ---- entry
ok('m06-fmt-iflet', 'C06', (LIB, sec(LIB, "        let formatter = self\n", "        formatter(self, format)\n"), "        let formatter = if let Some(func) = self.request_value::<crate::wrapper::FormattingFn>() {\n            func.0\n        } else if let Some(func) = self.request_ref::<crate::wrapper::FormattingFn>() {\n            func.0\n        } else {\n            crate::default_formatter\n        };\n\n"))
ok('m06-meta-match', 'C06', (LIB, "        self.request_ref::<Metadata>().unwrap_or(&EMPTY)\n", "        if let Some(metadata) = self.request_ref() {\n            return metadata;\n        }\n        &EMPTY\n"))
bug('m06-meta-nonempty', 'C06', (LIB, "        self.request_ref::<Metadata>().unwrap_or(&EMPTY)\n", "        match self.request_ref::<Metadata>() {\n            Some(metadata) if self.is_enabled() => metadata,\n            _ => &EMPTY,\n        }\n"))
# ---- conversion
ok('m19-generic-pass', 'C19', (CNV, sec(CNV, "        // First pass to build the schema\n", "        let metadata = writer.finalize()?;\n"), """        each_snapshot(&mut reader, |s| {
            schema.push(s);
            Ok(())
        })?;
        let mut writer = schema.finalize(writer, self.parquet_options, Some(self.metadata))?;

        reader.seek(SeekFrom::Start(start))?;
        each_snapshot(&mut reader, |s| writer.push(s))?;
"""), (CNV, "/// A struct for converting msgpack'd", """fn each_snapshot<R: Read>(
    reader: &mut BufReader<R>,
    mut visit: impl FnMut(Snapshot) -> Result<(), ParquetError>,
) -> Result<(), ParquetError> {
    loop {
        if reader.fill_buf()?.is_empty() {
            return Ok(());
        }
        match rmp_serde::from_read::<_, Snapshot>(&mut *reader) {
            Ok(snapshot) => visit(snapshot)?,
            Err(error) => return Err(ParquetError::External(Box::new(error))),
        }
    }
}

/// A struct for converting msgpack'd"""))
ok('m19-external', 'C19', (CNV, ".map_err(|x| ParquetError::External(Box::new(x)))?;\n            schema", ".map_err(|x| ParquetError::General(format!(\"bad snapshot: {x}\")))?;\n            schema"))
bug('m19-eof', 'C19', (CNV, "            let s: Snapshot = rmp_serde::from_read(&mut reader)\n                .map_err(|x| ParquetError::External(Box::new(x)))?;\n            writer.push(s)?;\n", "            let s: Snapshot = match rmp_serde::from_read(&mut reader) {\n                Ok(s) => s,\n                Err(rmp_serde::decode::Error::InvalidMarkerRead(_)) => break,\n                Err(x) => return Err(ParquetError::External(Box::new(x))),\n            };\n            writer.push(s)?;\n"))
bug('m19-rows', 'C19', (CNV, "        Ok(metadata.num_rows)\n", "        Ok(metadata.row_groups.len() as i64)\n"))

bug('m09-len-filter', 'C09', (META, "            Impl::Dynamic(map) => map.len(),\n", "            Impl::Dynamic(map) => map.values().filter(|v| !v.is_empty()).count(),\n"))
bug('m09-any-key', 'C09', (META, "            Impl::Dynamic(map) => map.contains_key(key),\n", "            Impl::Dynamic(map) => map.iter().any(|(k, v)| k == key && !v.is_empty()),\n"))
ok('m09-any-ok', 'C09', (META, "            Impl::Dynamic(map) => map.contains_key(key),\n", "            Impl::Dynamic(map) => map.keys().any(|k| k == key),\n"))
ok('m09-find-ok', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),\n", "            Impl::Dynamic(map) => map.iter().find(|(k, _)| k.as_str() == key).map(|(_, v)| v.as_str()),\n"))
bug('m09-find-len', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),\n", "            Impl::Dynamic(map) => map.iter().find(|(k, _)| k.starts_with(key)).map(|(_, v)| v.as_str()),\n"))
