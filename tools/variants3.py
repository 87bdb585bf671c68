from variants import *
from variants2 import *
# ---- C03
ok('y03-foreach', 'C03', (MET, MF, "    fn for_each<F>(self, mut f: F)\n    where\n        F: FnMut(Self::Item),\n    {\n        self.sm.for_each(&mut f);\n        self.dm.for_each(f);\n    }\n\n" + MF))
ok('y03-find', 'C03', (MET, MF, "    fn find<P>(&mut self, mut predicate: P) -> Option<Self::Item>\n    where\n        P: FnMut(&Self::Item) -> bool,\n    {\n        self.sm.find(&mut predicate).or_else(|| self.dm.find(predicate))\n    }\n\n" + MF))
ok('y03-any', 'C03', (MET, MF, "    fn any<P>(&mut self, mut predicate: P) -> bool\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        self.sm.any(&mut predicate) || self.dm.any(predicate)\n    }\n\n" + MF))
ok('y03-all', 'C03', (MET, MF, "    fn all<P>(&mut self, mut predicate: P) -> bool\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        self.sm.all(&mut predicate) && self.dm.all(predicate)\n    }\n\n" + MF))
bug('y03-all', 'C03', (MET, MF, "    fn all<P>(&mut self, mut predicate: P) -> bool\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        self.sm.all(&mut predicate) || self.dm.all(predicate)\n    }\n\n" + MF))
ok('y03-find-map', 'C03', (MET, MF, "    fn find_map<B, P>(&mut self, mut f: P) -> Option<B>\n    where\n        P: FnMut(Self::Item) -> Option<B>,\n    {\n        while let Some(entry) = self.next() {\n            if let Some(b) = f(entry) {\n                return Some(b);\n            }\n        }\n        None\n    }\n\n" + MF))
ok('y03-position', 'C03', (MET, MF, "    fn position<P>(&mut self, mut predicate: P) -> Option<usize>\n    where\n        P: FnMut(Self::Item) -> bool,\n    {\n        let len = self.sm.len();\n        self.sm.position(&mut predicate).or_else(|| self.dm.position(predicate).map(|p| p + len))\n    }\n\n" + MF))
ok('y03-last-loop', 'C03', (MET, MF, "    fn last(mut self) -> Option<Self::Item> {\n        let mut last = None;\n        while let Some(entry) = self.next() {\n            last = Some(entry);\n        }\n        last\n    }\n\n" + MF))
bug('y03-last-loop', 'C03', (MET, MF, "    fn last(mut self) -> Option<Self::Item> {\n        let mut last = None;\n        while let Some(entry) = self.dm.next() {\n            last = Some(entry);\n        }\n        last\n    }\n\n" + MF))
# ---- C10
ESC = """    value
        .replace('\\\\', "\\\\\\\\")
        .replace('"', "\\\\\\"")
        .replace('\\n', "\\\\n")
"""
def _loop(a): return "    let mut out = String::with_capacity(value.len());\n    for c in value.chars() {\n        match c {\n" + a + "            c => out.push(c),\n        }\n    }\n    out\n"
A1, A2, A3 = "            '\\\\' => out.push_str(\"\\\\\\\\\"),\n", "            '\"' => out.push_str(\"\\\\\\\"\"),\n", "            '\\n' => out.push_str(\"\\\\n\"),\n"
bug('y10-loop-nobackslash', 'C10', (FMT, ESC, _loop(A2 + A3)))
bug('y10-loop-nonl', 'C10', (FMT, ESC, _loop(A1 + A2)))
bug('y10-loop-dropctl', 'C10', (FMT, ESC, _loop(A1 + A2 + A3 + "            '\\t' => {}\n")))
ok('y10-loop-or', 'C10', (FMT, ESC, _loop("            '\\\\' | '\"' => {\n                out.push('\\\\');\n                out.push(c);\n            }\n" + A3)))
ok('y10-loop-if', 'C10', (FMT, ESC, "    let mut out = String::new();\n    for c in value.chars() {\n        if c == '\\\\' || c == '\"' {\n            out.push('\\\\');\n        }\n        if c == '\\n' {\n            out.push_str(\"\\\\n\");\n        } else {\n            out.push(c);\n        }\n    }\n    out\n"))
ok('y10-map-collect', 'C10', (FMT, ESC, "    value\n        .chars()\n        .map(|c| match c {\n            '\\\\' => \"\\\\\\\\\".to_string(),\n            '\"' => \"\\\\\\\"\".to_string(),\n            '\\n' => \"\\\\n\".to_string(),\n            c => c.to_string(),\n        })\n        .collect()\n"))
bug('y10-map-collect', 'C10', (FMT, ESC, "    value\n        .chars()\n        .map(|c| match c {\n            '\\\\' => \"\\\\\\\\\".to_string(),\n            '\"' => \"\\\\\\\"\".to_string(),\n            '\\n' => \" \".to_string(),\n            c => c.to_string(),\n        })\n        .collect()\n"))
bug('y10-fold-break', 'C10', (FMT, ESC, "    let mut out = String::with_capacity(value.len());\n    for c in value.chars() {\n        match c {\n            '\\0' => break,\n" + A1 + A2 + A3 + "            c => out.push(c),\n        }\n    }\n    out\n"))
ok('y13-enum', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (i, count) in data.iter().enumerate() {\n            buckets[i] = *count;\n        }\n"))
ok('y13-index', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for i in 0..data.len() {\n            buckets[i] = data[i];\n        }\n"))
ok('y13-foreach', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        buckets.iter_mut().zip(data.iter()).for_each(|(b, d)| *b = *d);\n"))
ok('y13-zip-rev', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (count, bucket) in data.iter().copied().zip(buckets.iter_mut()) {\n            *bucket = count;\n        }\n"))
bug('y13-skip-zero', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data) {\n            if *count == 0 {\n                continue;\n            }\n            *bucket = *count;\n        }\n"))
bug('y13-rev', 'C13', (HIS, "        buckets.copy_from_slice(data);\n", "        for (bucket, count) in buckets.iter_mut().zip(data.iter().rev()) {\n            *bucket = *count;\n        }\n"))
LAB = "                            true,\n                        )\n                        .with_metadata(metadata.clone()),"
ok('y17-copied-label', 'C17', (PAR, "format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n" + LAB, "format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n                            true,\n                        )\n                        .with_metadata(metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),"))
ok('y17-loop-label', 'C17', (PAR, "format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n" + LAB, "format!(\"{histogram}:bucket_counts\"),\n                            DataType::new_list(DataType::UInt64, true),\n                            true,\n                        )\n                        .with_metadata({\n                            let mut m = HashMap::new();\n                            for (k, v) in &metadata {\n                                m.insert(k.clone(), v.clone());\n                            }\n                            m\n                        }),"))
ok('y15-drain', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.gauges),\n", "            Snapshot::V2(s) => s.gauges.drain(..).collect(),\n"))
ok('y15-clone-clear', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.gauges),\n", "            Snapshot::V2(s) => {\n                let gauges = s.gauges.clone();\n                s.gauges.clear();\n                gauges\n            }\n"))
ok('y15-append', 'C15', (SNP, "            Snapshot::V2(s) => std::mem::take(&mut s.gauges),\n", "            Snapshot::V2(s) => {\n                let mut gauges = Vec::new();\n                gauges.append(&mut s.gauges);\n                gauges\n            }\n"))
ok('y15-bytes', 'C15', (SNP, "        rmp_serde::encode::to_vec(val)\n", "        let mut bytes = Vec::new();\n        rmp_serde::encode::write(&mut bytes, val)?;\n        Ok(bytes)\n"))
ok('y19-sanity', 'C19', (PAR, "        let batch = RecordBatch", "        assert_eq!(columns.len(), self.schema.fields().len());\n        let batch = RecordBatch"))
ok('y19-debug-sanity', 'C19', (PAR, "        let batch = RecordBatch", "        debug_assert!(columns.len() == self.schema.fields().len(), \"one column per field\");\n        let batch = RecordBatch"))
bug('y19-zero-rows', 'C19', (CNV, "        let metadata = writer.finalize()?;\n", "        let metadata = writer.finalize()?;\n        assert!(metadata.num_rows > 0, \"empty recording\");\n"))
bug('y19-conv-assert', 'C19', (CNV, "            writer.push(s)?;\n", "            assert!(s.duration().is_some(), \"recording too old\");\n            writer.push(s)?;\n"))
