B = "src/buffer.rs"
MUTS = [
    ("b-u16-le", B, "Ok(u16::from_be_bytes(self.extract_bytes(2)?.try_into()?))", "{ let b = self.extract_bytes(2)?; Ok(if b[0] == 0xfe { u16::from_le_bytes([b[0], b[1]]) } else { u16::from_be_bytes([b[0], b[1]]) }) }", "P13"),
    ("b-setpos", B, "        if pos > self.data.len() {", "        if pos >= self.data.len() {", "P13"),
    ("b-adv-clamp", B, "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n        self.pos += len;\n        Ok(())", "        if len > self.remaining() {\n            self.pos = self.data.len();\n            return Err(DnsError::LengthViolation);\n        }\n        self.pos += len;\n        Ok(())", "P13"),
    ("b-sub-whole", B, "            data: &self.data[0..self.pos + len],", "            data: if len == 0 { self.data } else { &self.data[0..self.pos + len] },", "P13"),
    ("b-charstr-short", B, "        let len = self.extract_u8()? as usize;\n        let mut data", "        let len = (self.extract_u8()? as usize).min(self.remaining());\n        let mut data", "P13"),
    ("b-u32-half", B, "Ok(u32::from_be_bytes(self.extract_bytes(4)?.try_into()?))", "{ let hi = self.extract_u16()? as u32; let lo = self.extract_u16()? as u32; Ok(hi << 16 | lo) }", "P13"),
    ("n-orgpos-always", B, "                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);\n                }", "                org_pos = Some(org_pos.unwrap_or(0).max(self.pos + 1));", ""),
    ("n-orgpos-last", B, "                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);\n                }", "                if org_pos.is_none() || data.is_empty() {\n                    org_pos = Some(self.pos + 1);\n                }", "P14"),
    ("n-forward", B, "                if target >= label_start {", "                if target == label_start || target >= self.pos && org_pos.is_some() {", "P14"),
    ("n-mask", B, "& !COMPRESSION_MASK_U16) as usize;", "& 0x1fff) as usize;", "P14"),
    ("n-cut", B, "} else if len as usize >= self.remaining() {", "} else if len as usize > self.remaining() {", "P01,P14"),
    ("n-labelstart", B, "                label_start = target;", "                label_start = self.pos.min(label_start);", "" ),
    ("n-ptr-drop", B, "                self.pos = target;\n", "                if org_pos.is_some() && data.len() > 2 { data.pop(); }\n                self.pos = target;\n", "P14"),
    ("R-b-rem", B, "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n\n        self.pos += len;\n        Ok(&self.data[self.pos - len..self.pos])", "        let start = self.pos;\n        let end = start.checked_add(len).ok_or(DnsError::LengthViolation)?;\n        let out = self.data.get(start..end).ok_or(DnsError::LengthViolation)?;\n        self.pos = end;\n        Ok(out)", ""),
    ("R-b-u8", B, "Ok(u8::from_be_bytes(self.extract_bytes(1)?.try_into()?))", "Ok(self.extract_bytes(1)?[0])", ""),
    ("R-n-extract", B, "                // Consume next part to FQDN\n                self.pos += 1;\n                data.push(self.data[self.pos..self.pos + len as usize].to_vec());\n                self.pos += len as usize;", "                let label = self.extract_character_string()?;\n                data.push(label);", ""),
    ("R-b-cs", B, "        let mut data = Vec::with_capacity(len);\n        data.extend_from_slice(self.extract_bytes(len)?);\n        Ok(data)", "        Ok(self.extract_bytes(len)?.to_vec())", ""),
    ("R-b-adv", B, "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n        self.pos += len;\n        Ok(())", "        self.extract_bytes(len).map(|_| ())", ""),
]
