F = "src/fqdn.rs"
MUTS = [
    ("pn-labelcount", F, "        self.data.len() as u8\n", "        u8::try_from(self.data.len()).unwrap()\n", "P16"),
    ("pn-display", F, "String::from_utf8_lossy(name_part)", "std::str::from_utf8(name_part).unwrap()", "P16"),
    ("pn-linklocal", F, "            .last()\n            .map(|bytes| std::str::from_utf8(bytes.as_slice()))\n        {", "            .last()\n            .map(|bytes| Ok::<&str, ()>(std::str::from_utf8(bytes.as_slice()).unwrap()))\n        {", "P16"),
    ("pn-display-sub", F, "if idx + 1 != self.data.len()", "if idx != self.data.len() - 1", ""),
    ("pn-hip-first", "src/rdata/hip.rs", "        if let Some(rs) = &self.rendevous_server {\n            for name in rs {\n                buf.extend(name.to_bytes());\n            }\n        }\n        buf\n", "        if let Some(rs) = &self.rendevous_server {\n            buf.extend(rs[0].to_bytes());\n            for name in &rs[1..] {\n                buf.extend(name.to_bytes());\n            }\n        }\n        buf\n", "P16"),
    ("pn-addq", "src/packet.rs", "        self.questions.push(question);\n        self.header.ques_count = self.questions.len() as u16;", "        self.questions.push(question);\n        self.header.ques_count += 1;", "P16"),
    ("pn-addq2", "src/packet.rs", "        self.answers.push(answer);\n        self.header.ans_count = self.answers.len() as u16;", "        self.answers.push(answer);\n        self.header.ans_count = self.answers.len().try_into().expect(\"too many\");", "P16"),
    ("pn-rcode", "src/header.rs", "            _ => Err(DnsError::InvalidResponseCode(code)),", "            15 => Ok(ResponseCode::NotZone),\n            _ => Err(DnsError::InvalidResponseCode(code)),", "P12"),
    ("pn-hex", "src/rdata/dnssec.rs", "            String::with_capacity(2 * self.digest.len()),\n            |mut output, byte| {\n                let _ = write!(output, \"{byte:02X}\");", "            String::with_capacity(2 * self.digest.len() - 0),\n            |mut output, byte| {\n                write!(output, \"{byte:02X}\").unwrap();", ""),
    ("pn-rrset-search", "src/resource_record_set.rs", "                .unwrap_or_else(|insert_pos| insert_pos);", "                .unwrap_or_else(|insert_pos| insert_pos + (bin.is_empty() as usize));", "P16"),
    ("pn-rrsig-time", "src/rdata/dnssec.rs", "        let expiration = expiration\n            .duration_since(UNIX_EPOCH)\n            .map_err(DnsError::InvalidDnsSecSignatureTimespan)?", "        let expiration = expiration\n            .duration_since(UNIX_EPOCH)\n            .unwrap()", "P16"),
    ("pn-ed448", "src/rdata/dnssec.rs", "                .ok_or(DnsError::DnsSecVerificationError(\"Invalid key data\".into()))?;", "                .expect(\"valid key\");", "P16"),
    ("pn-exp", "src/rdata/dnssec.rs", "                let first_byte = public_key_data.extract_u8()?;", "                let first_byte = dnskey.public_key[0]; public_key_data.advance(1)?;", "P16"),
    ("pn-null-size", "src/rdata/sshfp.rs", "    fn to_bytes(&self) -> Vec<u8> {", "    fn to_bytes(&self) -> Vec<u8> {\n        assert!(!self.fingerprint.is_empty());", "P16"),
    ("pn-dhcid", "src/rdata/dhcid.rs", "fn to_bytes(&self) -> Vec<u8> {", "fn to_bytes(&self) -> Vec<u8> {\n        let _kind = self.digest[0];", "P16"),
]
