from variants import *
from variants2 import *
from variants4 import sec
# ---- build profiles
bug('w01-debug-remove', 'C01', (DYN, "        self.metrics.remove(&key);", "        debug_assert!(self.metrics.remove(&key).map_or(true, |e| Self::key_for(&e) == key));"))
bug('w13-debug-len', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n", "        if cfg!(debug_assertions) && data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n"))
bug('w05-debug-tag', 'C05', (PROV, "        if self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: We just", "        if !cfg!(debug_assertions) || self.tag_id() == TypeId::of::<I>() {\n            // SAFETY: We just"))
bug('w11-debug-wrap', 'C11', (CTR, "        self.0.fetch_add(value, Ordering::Relaxed)", "        let old = self.0.fetch_add(value, Ordering::Relaxed);\n        debug_assert!(old.checked_add(value).is_some());\n        old"))
bug('w17-debug-insert', 'C17', (PAR, "            self.gauges.entry(name).or_insert(gauge.metadata);", "            debug_assert!(!self.counters.contains_key(&name) || self.gauges.insert(name.clone(), gauge.metadata.clone()).is_some() || true);\n            if !self.counters.contains_key(&name) {\n                self.gauges.entry(name).or_insert(gauge.metadata);\n            }"))
ok('w02-debug-ok', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);", "        let key = Self::key_for(&entry);\n        self.metrics.insert(key, entry);\n        debug_assert!(self.metrics.contains_key(&key));"))
ok('w03-debug-ok', 'C03', (MET, NTH, "let len = self.sm.len();\n        self.sm.nth(n).or_else(|| {\n            debug_assert!(n >= len);\n            self.dm.nth(n - len)\n        })"))
ok('w13-debug-ok', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        debug_assert_eq!(buckets.len(), data.len());\n        buckets.copy_from_slice(data);\n"))
ok('w18-debug-ok', 'C18', (PAR, "        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;", "        debug_assert_eq!(columns.len(), self.schema.fields().len());\n        let batch = RecordBatch::try_new(self.schema.clone(), columns)?;"))
ok('w16-debug-ok', 'C16', (SNP, "    unique_name\n}", "    debug_assert!(unique_name.starts_with(name.as_str()));\n    unique_name\n}"))
# ---- explicit panics
bug('w01-assert-registered', 'C01', (DYN, "        self.metrics.remove(&key);", "        assert!(self.metrics.contains_key(&key), \"not registered\");\n        self.metrics.remove(&key);"))
bug('w02-assert-dup', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);", "        let previous = self.metrics.insert(Self::key_for(&entry), entry);\n        assert!(previous.is_none(), \"registered twice\");"))
bug('w02-assert-name', 'C02', (DYN, "        self.metrics.insert(Self::key_for(&entry), entry);", "        if self.metrics.values().any(|e| e.name == entry.name) {\n            panic!(\"duplicate name\");\n        }\n        self.metrics.insert(Self::key_for(&entry), entry);"))
bug('w03-nth-expect', 'C03', (MET, NTH, "let len = self.sm.len();\n        if n < len {\n            self.sm.nth(n)\n        } else {\n            let _ = self.sm.nth(n);\n            Some(self.dm.nth(n - len).expect(\"out of range\"))\n        }"))
bug('w05-taken-panic', 'C05', (PROV, "        if let Some(res @ TaggedOption(None)) = self.0.downcast_mut::<I>() {\n            res.0 = Some(fulfil());\n        }\n", "        if let Some(res) = self.0.downcast_mut::<I>() {\n            assert!(res.0.is_none(), \"provided twice\");\n            res.0 = Some(fulfil());\n        }\n"))
bug('w06-meta-expect', 'C06', (LIB, "        self.request_ref::<Metadata>().unwrap_or(&EMPTY)", "        let _ = &EMPTY;\n        self.request_ref::<Metadata>().expect(\"metric without metadata\")"))
bug('w07-name-assert', 'C07', (DYN, "        self.provider.insert(Metadata::new(self.metadata));\n", "        assert!(!self.name.is_empty(), \"a metric needs a name\");\n        self.provider.insert(Metadata::new(self.metadata));\n"))
bug('w07-key-assert', 'C07', (DYN, "        self.metadata.insert(key.into(), value.into());\n        self", "        let previous = self.metadata.insert(key.into(), value.into());\n        assert!(previous.is_none(), \"repeated key\");\n        self"))
bug('w09-get-index', 'C09', (META, "            Impl::Dynamic(map) => map.get(key).map(|s| &**s),", "            Impl::Dynamic(map) => Some(map[key].as_str()),"))
bug('w10-assert', 'C10', (FMT, "        Format::Prometheus => {\n", "        Format::Prometheus => {\n            assert!(!metric.name().contains('{'));\n"))
bug('w12-poison', 'C12', (LAZ, "        Lazy::get(self).and_then(|metric| metric.value())", "        let metric = Lazy::get(self).expect(\"not initialised\");\n        metric.value()"))
bug('w13-len-assert', 'C13', (HIS, "        if data.len() != self.config.total_buckets() {\n            return Err(Error::IncompatibleParameters);\n        }\n", "        assert_eq!(data.len(), self.config.total_buckets());\n"))
bug('w13-inc-unwrap', 'C13', (HIS, "        self.get_or_init().increment(value)\n", "        self.get_or_init().increment(value).unwrap();\n        Ok(())\n"))
ok('w14-unreach', 'C14', (SNR, "                _ => continue,\n            }", "                None => continue,\n                _ => unreachable!(),\n            }"))
bug('w14-hist-unreach', 'C14', (SNR, "                    } else {\n                        None\n                    };\n", "                    } else {\n                        panic!(\"unknown metric\")\n                    };\n"))
bug('w15-dur-unwrap', 'C15', (SNP, "            Snapshot::V1(_) => None,\n            Snapshot::V2(s) => Some(s.duration),", "            Snapshot::V1(_) => unimplemented!(),\n            Snapshot::V2(s) => Some(s.duration),"))
bug('w16-index', 'C16', (SNP, "    let Some(name) = metadata.get(\"metric\") else {\n        return snapshot_name.to_string();\n    };\n", "    let Some(name) = metadata.get(\"metric\") else {\n        return snapshot_name.to_string();\n    };\n    assert!(!name.is_empty());\n"))
bug('w17-dup-assert', 'C17', (PAR, "            self.gauges.entry(name).or_insert(gauge.metadata);", "            let seen = self.gauges.entry(name).or_insert_with(|| gauge.metadata.clone());\n            assert_eq!(seen, &gauge.metadata);"))
