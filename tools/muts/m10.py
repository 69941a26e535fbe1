F = "src/fqdn.rs"
NEW = "            data: name\n                .split('.')\n                .filter(|s| !s.is_empty())\n                .map(|s| s.as_bytes().to_vec())\n                .collect(),\n"
SPL = "                .split('.')\n"
FIL = "                .filter(|s| !s.is_empty())\n"
APP = "        self.data.push(name.as_bytes().to_vec());"
DSP = "            write!(f, \"{}\", String::from_utf8_lossy(name_part))?;\n            if idx + 1 != self.data.len() {\n                write!(f, \".\")?;\n            }\n"
DFN = "        for (idx, name_part) in self.iter().enumerate() {\n            // Labels parsed from the wire may contain arbitrary bytes\n" + DSP + "        }\n        Ok(())\n"
LOC = "            return tld == \"local\";"
LFN = "        if let Some(Ok(tld)) = self\n            .data\n            .last()\n            .map(|bytes| std::str::from_utf8(bytes.as_slice()))\n        {\n            return tld == \"local\";\n        }\n        false\n"
ROOT = "        self.is_empty() || self.data.iter().all(|sub| sub.is_empty())"
FS = "            .iter()\n            .map(|str_part| str_part.as_bytes().to_vec())\n            .collect();"
MUTS = [
    ("t-term", F, SPL + FIL, "                .split_terminator('.')\n", "P24"),
    ("t-nofilter", F, FIL, "", "P24"),
    ("t-splitn", F, SPL, "                .splitn(3, '.')\n", "P24"),
    ("t-63", F, NEW, "            data: name\n                .split('.')\n                .filter(|s| !s.is_empty() && s.len() < 64)\n                .map(|s| s.as_bytes().to_vec())\n                .collect(),\n", "P24"),
    ("t-trunc", F, "                .map(|s| s.as_bytes().to_vec())\n", "                .map(|s| s.as_bytes().iter().take(63).copied().collect())\n", "P24"),
    ("t-trim", F, "            data: name\n", "            data: name\n                .trim_end_matches('x')\n", "P24"),
    ("t-lower", F, "                .map(|s| s.as_bytes().to_vec())\n", "                .map(|s| s.to_ascii_lowercase().into_bytes())\n", "P24"),
    ("t-dotall", F, "                .split('.')\n", "                .split(['.', '/'])\n", "P24"),
    ("t-append-empty", F, APP, "        if !self.is_empty() {\n            self.data.push(name.as_bytes().to_vec());\n        } else {\n            self.data = vec![name.as_bytes().to_vec(), Vec::new()];\n        }", "P24"),
    ("t-append-front", F, APP, "        self.data.insert(0, name.as_bytes().to_vec());", "P24"),
    ("t-append-split", F, APP, "        self.data.push(name.trim_end_matches('.').as_bytes().to_vec());", "P24"),
    ("t-disp-trail", F, "            if idx + 1 != self.data.len() {\n", "            if idx + 1 <= self.data.len() && idx != 2 {\n", "P24"),
    ("t-disp-sep", F, "            if idx + 1 != self.data.len() {\n", "            if idx + 2 != self.data.len() || idx == 0 && self.data.len() == 2 {\n", "P24"),
    ("t-disp-quote", F, "            write!(f, \"{}\", String::from_utf8_lossy(name_part))?;", "            write!(f, \"{:.63}\", String::from_utf8_lossy(name_part))?;", "P24"),
    ("t-local-first", F, "            .data\n            .last()\n", "            .data\n            .first()\n", "P24"),
    ("t-local-ends", F, LOC, "            return tld.ends_with(\"local\");", "P24"),
    ("t-local-starts", F, LOC, "            return tld.starts_with(\"local\");", "P24"),
    ("t-local-any", F, LFN, "        self.data.iter().any(|l| l.as_slice() == b\"local\")\n", "P24"),
    ("t-root-any", F, "all(|sub| sub.is_empty())", "any(|sub| sub.is_empty())", "P24"),
    ("t-root-empty", F, ROOT, "        self.is_empty()", "P24"),
    ("t-root-first", F, ROOT, "        self.data.first().map_or(true, |sub| sub.is_empty())", "P24"),
    ("t-count-nonempty", F, "        self.data.len() as u8", "        self.data.iter().filter(|l| !l.is_empty()).count() as u8", ""),  # differs on empty labels only
    ("t-count-127", F, "        self.data.len() as u8", "        (self.data.len() as u8) & 0x7F", "P24"),
    ("t-fromstrs", F, FS, "            .iter()\n            .filter(|s| !s.is_empty())\n            .map(|str_part| str_part.as_bytes().to_vec())\n            .collect();", "P24"),
    ("t-fromvec-rev", F, "    fn from(data: Vec<Vec<u8>>) -> Self {\n        Self { data }", "    fn from(mut data: Vec<Vec<u8>>) -> Self {\n        data.dedup();\n        Self { data }", "P24"),
    ("t-fromslice", F, "            data: data.to_vec(),", "            data: data.iter().take(127).cloned().collect(),", "P24"),
    ("t-iter-skip", F, "        self.data.iter()\n", "        self.data[..self.data.len().min(127)].iter()\n", "P24"),
    ("t-len", F, "        self.byte_size()\n", "        self.data.iter().map(|l| l.len() + 1).sum::<usize>() + 1\n", "P24"),
    # the same behaviour
    ("r-loop", F, "        Self {\n" + NEW + "        }\n", "        let mut data = Vec::new();\n        for part in name.split('.') {\n            if !part.is_empty() {\n                data.push(part.as_bytes().to_vec());\n            }\n        }\n        Self { data }\n", ""),
    ("r-bytes", F, "        Self {\n" + NEW + "        }\n", "        let mut data: Vec<Vec<u8>> = Vec::new();\n        let mut cur: Vec<u8> = Vec::new();\n        for b in name.bytes() {\n            if b == b'.' {\n                if !cur.is_empty() {\n                    data.push(cur);\n                    cur = Vec::new();\n                }\n            } else {\n                cur.push(b);\n            }\n        }\n        if !cur.is_empty() {\n            data.push(cur);\n        }\n        Self { data }\n", ""),
    ("r-bslice", F, NEW, "            data: name\n                .as_bytes()\n                .split(|b| *b == b'.')\n                .filter(|s| !s.is_empty())\n                .map(|s| s.to_vec())\n                .collect(),\n", ""),
    ("r-fmap", F, FIL + "                .map(|s| s.as_bytes().to_vec())\n", "                .filter_map(|s| if s.is_empty() { None } else { Some(s.as_bytes().to_vec()) })\n", ""),
    ("r-while", F, "        Self {\n" + NEW + "        }\n", "        let mut data = Vec::new();\n        let mut rest = name;\n        while let Some((head, tail)) = rest.split_once('.') {\n            if !head.is_empty() {\n                data.push(head.as_bytes().to_vec());\n            }\n            rest = tail;\n        }\n        if !rest.is_empty() {\n            data.push(rest.as_bytes().to_vec());\n        }\n        Self { data }\n", ""),
    ("r-disp-join", F, DFN, "        let parts: Vec<_> = self.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect();\n        write!(f, \"{}\", parts.join(\".\"))\n", ""),
    ("r-disp-first", F, DFN, "        let mut first = true;\n        for label in self.iter() {\n            if !first {\n                f.write_str(\".\")?;\n            }\n            first = false;\n            f.write_str(&String::from_utf8_lossy(label))?;\n        }\n        Ok(())\n", ""),
    ("r-disp-idx", F, DSP, "            if idx > 0 {\n                write!(f, \".\")?;\n            }\n            write!(f, \"{}\", String::from_utf8_lossy(name_part))?;\n", ""),
    ("r-disp-match", F, DFN, "        let mut it = self.iter();\n        if let Some(l) = it.next() {\n            write!(f, \"{}\", String::from_utf8_lossy(l))?;\n            for l in it {\n                write!(f, \".{}\", String::from_utf8_lossy(l))?;\n            }\n        }\n        Ok(())\n", ""),
    ("r-local-bytes", F, LFN, "        self.data.last().map_or(false, |l| l.as_slice() == b\"local\")\n", ""),
    ("r-local-match", F, LFN, "        match self.data.last() {\n            Some(l) => &l[..] == b\"local\",\n            None => false,\n        }\n", ""),
    ("r-root", F, ROOT, "        !self.data.iter().any(|sub| !sub.is_empty())", ""),
    ("r-root-loop", F, ROOT, "        for l in self.iter() {\n            if !l.is_empty() {\n                return false;\n            }\n        }\n        true", ""),
]
D = "src/rdata/dnssec.rs"
MUTS += [
    ("h-nopad", D, "{byte:02X}", "{byte:X}", "P20"),
    ("h-lower", D, "{byte:02X}", "{byte:02x}", "P20"),
    ("h-first20", D, "        self.digest.iter().fold(\n", "        self.digest.iter().take(48).fold(\n", "P20"),
    ("r-hex-loop", D, "        self.digest.iter().fold(\n            String::with_capacity(2 * self.digest.len()),\n            |mut output, byte| {\n                let _ = write!(output, \"{byte:02X}\");\n                output\n            },\n        )\n", "        let mut s = String::new();\n        for b in &self.digest {\n            let _ = write!(s, \"{:02X}\", b);\n        }\n        s\n", ""),
    ("r-hex-collect", D, "        self.digest.iter().fold(\n            String::with_capacity(2 * self.digest.len()),\n            |mut output, byte| {\n                let _ = write!(output, \"{byte:02X}\");\n                output\n            },\n        )\n", "        self.digest.iter().map(|b| format!(\"{:02X}\", b)).collect::<Vec<_>>().join(\"\")\n", ""),
    ("r-hex-table", D, "        self.digest.iter().fold(\n            String::with_capacity(2 * self.digest.len()),\n            |mut output, byte| {\n                let _ = write!(output, \"{byte:02X}\");\n                output\n            },\n        )\n", "        const HEX: &[u8; 16] = b\"0123456789ABCDEF\";\n        let mut s = String::new();\n        let _ = write!(s, \"\");\n        for b in &self.digest {\n            s.push(HEX[(b >> 4) as usize] as char);\n            s.push(HEX[(b & 15) as usize] as char);\n        }\n        s\n", ""),
]
