"""Identity of entries (C24)."""
from variants import *
ISB = """        if let (Some(a), Some(b)) = (self.metric().as_any(), metric.as_any()) {
            if a.type_id() != b.type_id() {
                return false;
            }
        }

        let a = self.metric() as *const _ as *const ();
        let b = metric as *const _ as *const ();
        a == b
"""
bug('i24-no-type', 'C24', (LIB, ISB, "        let a = self.metric() as *const _ as *const ();\n        let b = metric as *const _ as *const ();\n        a == b\n"))
bug('i24-dyn-type', 'C24', (LIB, "        if let (Some(a), Some(b)) = (self.metric().as_any(), metric.as_any()) {\n            if a.type_id() != b.type_id() {\n                return false;\n            }\n        }\n", "        if self.metric().type_id() != metric.type_id() {\n            return false;\n        }\n"))
bug('i24-no-addr', 'C24', (LIB, ISB, "        match (self.metric().as_any(), metric.as_any()) {\n            (Some(a), Some(b)) => a.type_id() == b.type_id(),\n            _ => self.metric() as *const _ as *const () == metric as *const _ as *const (),\n        }\n"))
bug('i24-need-any', 'C24', (LIB, ISB, "        match (self.metric().as_any(), metric.as_any()) {\n            (Some(a), Some(b)) if a.type_id() == b.type_id() => {\n                self.metric() as *const _ as *const () == metric as *const _ as *const ()\n            }\n            _ => false,\n        }\n"))
bug('i24-enabled', 'C24', (LIB, ISB, "        if !metric.is_enabled() {\n            return false;\n        }\n" + ISB))
bug('i24-order', 'C24', (DYN, "struct ProviderMetric<M> {\n    metric: M,\n    provider: ProviderMap,\n}", "struct ProviderMetric<M> {\n    provider: ProviderMap,\n    metric: M,\n}"))
bug('i24-repr', 'C24', (DYN, "#[repr(C)]\nstruct ProviderMetric", "struct ProviderMetric"))
bug('i24-flag', 'C24', (DYN, "struct ProviderMetric<M> {\n    metric: M,", "struct ProviderMetric<M> {\n    built: bool,\n    metric: M,"), (DYN, "ProviderMetric { metric, provider }", "ProviderMetric { built: true, metric, provider }"), (DYN, "    fn is_enabled(&self) -> bool {\n        self.metric.is_enabled()", "    fn is_enabled(&self) -> bool {\n        let _ = self.built;\n        self.metric.is_enabled()"))
bug('i24-near', 'C24', (LIB, "        a == b\n", "        (a as usize) & !7 == (b as usize) & !7\n"))
bug('i24-name', 'C24', (LIB, "        a == b\n", "        a == b || (!self.name.is_empty() && crate::metrics().iter().any(|e| e.name == self.name && std::ptr::eq(e.metric() as *const _ as *const (), b)))\n"))
ok('i24-addr-eq', 'C24', (LIB, "        let a = self.metric() as *const _ as *const ();\n        let b = metric as *const _ as *const ();\n        a == b\n", "        std::ptr::addr_eq(self.metric(), metric)\n"))
ok('i24-addr-first', 'C24', (LIB, ISB, "        let a = self.metric() as *const dyn Metric as *const ();\n        let b = metric as *const dyn Metric as *const ();\n        if a != b {\n            return false;\n        }\n        match (self.metric().as_any(), metric.as_any()) {\n            (Some(a), Some(b)) => a.type_id() == b.type_id(),\n            _ => true,\n        }\n"))
ok('i24-and', 'C24', (LIB, ISB, "        let same_type = match (self.metric().as_any(), metric.as_any()) {\n            (Some(a), Some(b)) => a.type_id() == b.type_id(),\n            _ => true,\n        };\n        let a = self.metric() as *const _ as *const ();\n        let b = metric as *const _ as *const ();\n        same_type && a == b\n"))
ok('i24-matches', 'C24', (LIB, ISB, "        let differs = matches!((self.metric().as_any(), metric.as_any()), (Some(a), Some(b)) if a.type_id() != b.type_id());\n        !differs && std::ptr::addr_eq(self.metric, metric)\n"))
ok('i24-helper', 'C24', (LIB, ISB, "        !types_differ(self.metric(), metric) && thin(self.metric()) == thin(metric)\n"), (LIB, "impl MetricEntry {\n", "fn thin(metric: &dyn Metric) -> *const () {\n    metric as *const dyn Metric as *const ()\n}\n\nfn types_differ(a: &dyn Metric, b: &dyn Metric) -> bool {\n    a.as_any()\n        .zip(b.as_any())\n        .map_or(false, |(a, b)| a.type_id() != b.type_id())\n}\n\nimpl MetricEntry {\n"))
ok('i24-usize', 'C24', (LIB, "        let a = self.metric() as *const _ as *const ();\n        let b = metric as *const _ as *const ();\n        a == b\n", "        let address = |m: &dyn Metric| m as *const dyn Metric as *const () as usize;\n        address(self.metric()) == address(metric)\n"))
ok('i24-rename', 'C24', (DYN, "struct ProviderMetric<M> {\n    metric: M,\n    provider: ProviderMap,\n}", "struct ProviderMetric<M> {\n    metric: M,\n    provided: ProviderMap,\n}"), (DYN, "ProviderMetric { metric, provider }", "ProviderMetric { metric, provided: provider }"), (DYN, "        self.provider.provide(request);\n        self.metric.provide", "        self.provided.provide(request);\n        self.metric.provide"))
ok('i24-return', 'C24', (LIB, "        a == b\n", "        if a == b {\n            return true;\n        }\n        false\n"))
