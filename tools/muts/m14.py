P="src/packet.rs"; R="src/resource.rs"; B="src/buffer.rs"; F="src/fqdn.rs"; Q="src/question.rs"; H="src/header.rs"
def rd(f): return open("/repo/"+f).read()
def region(f, a, b):
    s = rd(f); i = s.index(a); j = s.index(b, i); return s[i:j]
MUTS = []
def add(id, *e, want=""):
    MUTS.append((id, [x[0] for x in e], [x[1] for x in e], [x[2] for x in e], want))
# packet: generic helpers for writing, sizing and reading sections
w = region(P, "        let mut byte_len = self.header.byte_size();", "        bin\n    }\n}\n\nimpl TryFrom<&[u8]> for Packet")
add("x-pk-write", (P, w, "        let mut bin = Vec::with_capacity(self.byte_size());\n        bin.extend(self.counted_header().to_bytes());\n        write_section(&mut bin, &self.questions);\n        for section in [&self.answers, &self.authorities, &self.additional] {\n            write_section(&mut bin, section);\n        }\n\n"),
    (P, "impl TryFrom<&[u8]> for Packet", "fn write_section<T: ByteConvertible>(bin: &mut Vec<u8>, items: &[T]) {\n    items.iter().for_each(|item| bin.extend_from_slice(&item.to_bytes()));\n}\n\nimpl TryFrom<&[u8]> for Packet"),
    (P, region(P, "        let mut size = Header::SIZE;", "    }\n\n    fn to_bytes(&self)"), "        Header::SIZE\n            + self.questions.iter().map(|q| q.byte_size()).sum::<usize>()\n            + [&self.answers, &self.authorities, &self.additional]\n                .iter()\n                .flat_map(|s| s.iter())\n                .map(ByteConvertible::byte_size)\n                .sum::<usize>()\n"))
a = region(P, "        // Parse answer records from buffer", "        packet.answers = answers;")
b = region(P, "        // Parse authority records from buffer", "        packet.authorities = authorities;")
add("x-pk-read", (P, a, "        let answers = read_records(buffer, packet.header.ans_count)?;\n"), (P, b, "        let authorities = read_records(buffer, packet.header.auth_count)?;\n"),
    (P, "impl TryFrom<&[u8]> for Packet", "fn read_records(buffer: &mut DnsBuffer, count: u16) -> Result<Vec<ResourceRecord>, DnsError> {\n    (0..count).map(|_| ResourceRecord::try_from(&mut *buffer)).collect()\n}\n\nimpl TryFrom<&[u8]> for Packet"))
add("x-pk-comp", (P, region(P, "        for rec in self.answers.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed", "        bin\n    }"),
    "        let records = self.answers.iter().chain(&self.authorities).chain(&self.additional);\n        for rec in records {\n            let encoded = rec.to_bytes_compressed(&mut used_fqdn, bin.len());\n            bin.extend(encoded);\n        }\n\n"))
# resource record: helpers and renamed locals
add("x-rr-read", (R, region(R, "        let (a_class, cache_flush) = {", "        // extract TTL" if "        // extract TTL" in rd(R) else "        let time_to_live = u32::from_be_bytes"), "        let (a_class, cache_flush) = split_class(buffer.extract_u16()?);\n\n"),
    (R, "impl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {", "#[cfg(feature = \"mdns\")]\nfn split_class(raw: u16) -> (RecordClass, bool) {\n    let flush = raw >> 15 == 1;\n    (RecordClass::from(raw & 0x7FFF), flush)\n}\n\nimpl<'a> TryFrom<&mut DnsBuffer<'a>> for ResourceRecord {"),
    (R, "u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?)", "buffer.extract_u32()?"),
    (R, "let data_len = buffer.extract_u16()?;", "let data_len = usize::from(buffer.extract_u16()?);"), (R, "buffer.sub_buffer(data_len as usize)?", "buffer.sub_buffer(data_len)?"), (R, "buffer.advance(data_len as usize)?", "buffer.advance(data_len)?"))
# question
add("x-q", (Q, "            if bin_val & MDNS_UNICAST_RESPONSE > 0 {\n                (QClass::try_from(bin_val & !MDNS_UNICAST_RESPONSE)?, true)\n            } else {\n                (QClass::try_from(bin_val)?, false)\n            }", "            let unicast = bin_val & MDNS_UNICAST_RESPONSE != 0;\n            (QClass::try_from(bin_val & !MDNS_UNICAST_RESPONSE)?, unicast)"),
    (Q, "        let mut buffer = Vec::with_capacity(self.q_name.byte_size() + (2 * size_of::<u16>()));\n\n        buffer.extend_from_slice(&self.q_name.to_bytes());\n", "        let mut buffer = self.q_name.to_bytes();\n"))
# buffer
CHK = "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n"
add("x-buf-check", (B, CHK+"        self.pos += len;\n        Ok(())", "        self.check(len)?;\n        self.pos += len;\n        Ok(())"),
    (B, CHK+"        Ok(&self.data[self.pos..self.pos + len])", "        self.check(len)?;\n        let end = self.pos + len;\n        Ok(&self.data[self.pos..end])"),
    (B, CHK+"\n        self.pos += len;\n        Ok(&self.data[self.pos - len..self.pos])", "        self.check(len)?;\n        let start = self.pos;\n        self.pos = start + len;\n        Ok(&self.data[start..self.pos])"),
    (B, "impl<'a> DnsBuffer<'a> {\n", "impl<'a> DnsBuffer<'a> {\n    fn check(&self, len: usize) -> Result<(), DnsError> {\n        match self.remaining().checked_sub(len) {\n            Some(_) => Ok(()),\n            None => Err(DnsError::LengthViolation),\n        }\n    }\n\n"))
add("x-buf-get", (B, CHK+"\n        self.pos += len;\n        Ok(&self.data[self.pos - len..self.pos])", "        let bytes = self\n            .data\n            .get(self.pos..)\n            .and_then(|rest| rest.get(..len))\n            .ok_or(DnsError::LengthViolation)?;\n        self.pos += len;\n        Ok(bytes)"))
add("x-buf-ints", (B, "Ok(u8::from_be_bytes(self.extract_bytes(1)?.try_into()?))", "self.extract_bytes(1).map(|b| b[0])"),
    (B, "Ok(u16::from_be_bytes(self.extract_bytes(2)?.try_into()?))", "let bytes = self.extract_bytes(2)?;\n        Ok((bytes[0] as u16) << 8 | bytes[1] as u16)"),
    (B, "        let mut data = Vec::with_capacity(len);\n        data.extend_from_slice(self.extract_bytes(len)?);\n        Ok(data)", "        self.extract_bytes(len).map(<[u8]>::to_vec)"))
n = region(B, "            } else if len as usize >= self.remaining() {", "        }\n    }\n\n" )
add("x-fqdn-read", (B, n, "                continue;\n            }\n            if usize::from(len) >= self.remaining() {\n                return Err(DnsError::LengthViolation);\n            }\n            if len == 0 {\n                self.pos = org_pos.unwrap_or(self.pos) + 1;\n                return Ok(FQDN::from(data));\n            }\n            let start = self.pos + 1;\n            let end = start + len as usize;\n            data.push(self.data[start..end].to_vec());\n            self.pos = end;\n"))
# names
add("x-fqdn-size", (F, region(F, "        self.iter().fold(1, |acc, label| {", "    }\n\n    fn to_bytes"), "        1 + self\n            .iter()\n            .filter(|label| !label.is_empty())\n            .map(|label| label.len() + 1)\n            .sum::<usize>()\n"),
    (F, region(F, "        for name_part in self.iter() {\n            if !name_part", "        buffer.push(0);\n\n        buffer\n    }\n}\n\nimpl Comp"), "        for name_part in self.iter().filter(|part| !part.is_empty()) {\n            buffer.push(name_part.len() as u8);\n            buffer.extend(name_part.iter().copied());\n        }\n"))
add("x-fqdn-comp", (F, region(F, "            let remaining_fqdn = &self.data[i..];\n            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            if let Some(pointer)", "        // Add 0 delimiter to buffer"),
    "            let label = &self.data[i];\n            let hash = hash_fqdn(&self.data[i..]);\n            match names.get(&hash) {\n                Some(&pointer) => {\n                    buffer.extend((COMPRESSION_MASK_U16 | pointer as u16).to_be_bytes());\n                    return buffer;\n                }\n                None => {\n                    if offset <= MAX_POINTER_OFFSET {\n                        names.insert(hash, offset);\n                    }\n                    buffer.push(label.len() as u8);\n                    buffer.extend_from_slice(label);\n                    offset += 1 + label.len();\n                }\n            }\n        }\n\n"))
# record data
T="src/rdata/txt.rs"
add("x-txt", (T, region(T, "        self.0.iter().fold(Vec::new()", "    }\n}\n"), "        let mut buff = Vec::with_capacity(self.byte_size());\n        for text in &self.0 {\n            buff.push(text.len() as u8);\n            buff.extend_from_slice(text.as_bytes());\n        }\n        buff\n"),
    (T, "self.0.iter().fold(0, |acc, elem| acc + elem.len() + 1)", "self.0.iter().map(|s| s.len()).sum::<usize>() + self.0.len()"))
S="src/rdata/svcb.rs"
add("x-svcb", (S, region(S, "            let new_pos = {", "        }\n\n        Ok(Self {\n            priority"), "            let left = buffer.remaining();\n            let mut rest = buffer.sub_buffer(left)?;\n            let param = Param::try_from(&mut rest)?;\n            let end = rest.position();\n            params.insert(param);\n            buffer.set_position(end)?;\n"),
    (S, "                for alpn in alpns.iter() {\n                    buf.push(alpn.len() as u8);\n                    buf.extend(alpn);\n                }", "                alpns.iter().for_each(|alpn| {\n                    buf.push(alpn.len() as u8);\n                    buf.extend_from_slice(alpn);\n                });"),
    (S, "alpns.iter().fold(0, |acc, alpn| acc + alpn.len() + 1)", "alpns.iter().map(|a| 1 + a.len()).sum::<usize>()"))
C="src/rdata/csync.rs"
add("x-csync", (C, region(C, "        let mut block_num = 0;\n        let mut block_len", "        buffer\n    }"), "        let mut windows = std::collections::BTreeMap::<u8, Vec<u8>>::new();\n        for rtype in &self.types {\n            let code = *rtype as u16;\n            let bitmap = windows.entry((code >> 8) as u8).or_default();\n            let octet = (code & 0xFF) as usize / 8;\n            if bitmap.len() <= octet {\n                bitmap.resize(octet + 1, 0);\n            }\n            bitmap[octet] |= 0x80 >> (code % 8);\n        }\n        for (window, bitmap) in windows {\n            buffer.push(window);\n            buffer.push(bitmap.len() as u8);\n            buffer.extend(bitmap);\n        }\n\n"))
add("x-csync2", (C, region(C, "            for (index, octet) in bitmap.iter().enumerate() {", "        }\n\n        Ok(Self {"), "            for bit in 0..8 * window_len {\n                if bitmap[(bit / 8) as usize] & (0x80 >> (bit % 8)) != 0 {\n                    types.insert(RecordType::try_from(256 * window_num + bit)?);\n                }\n            }\n"))
K="src/rdata/tkey.rs"
add("x-tkey", (K, "        buf.extend(u16::to_be_bytes(self.key_data.len() as u16));\n        buf.extend_from_slice(&self.key_data);\n        buf.extend(u16::to_be_bytes(self.other_data.len() as u16));\n        buf.extend_from_slice(&self.other_data);\n", "        for data in [&self.key_data, &self.other_data] {\n            buf.extend((data.len() as u16).to_be_bytes());\n            buf.extend(data);\n        }\n"))
A="src/rdata/apl.rs"
add("x-apl", (A, "buff.push((self.n as u8) << 7 | self.afd_part.byte_size() as u8);", "let len = self.afd_part.byte_size() as u8;\n        buff.push(if self.n { 0x80 | len } else { len });"),
    (A, "        let mut buf = Vec::with_capacity(self.byte_size());\n        match self {\n            Self::IpV4(ref v4) => buf.extend(v4.octets()),\n            Self::IpV6(ref v6) => buf.extend(v6.octets()),\n        }\n        buf", "        match self {\n            Self::IpV4(v4) => v4.octets().to_vec(),\n            Self::IpV6(v6) => v6.octets().to_vec(),\n        }"))
# header
add("x-hdr", (H, "self.flags.set_rd(unsafe { transmute(rd) });", "self.flags.set_rd(rd.into());"), (H, "self.flags.set_tc(unsafe { transmute(tc) });", "self.flags.set_tc(u8::from(tc));"), (H, "self.flags.set_aa(unsafe { transmute(aa) });", "self.flags.set_aa(if aa { 1 } else { 0 });"),
    (H, "self.flags.rd() != 0", "self.flags.rd() == 1"), (H, "        if !qr {\n            self.flags.set_ra(0);", "        if qr {\n            return;\n        } else {\n            self.flags.set_ra(0);"))
Hp="src/rdata/hip.rs"
add("x-hip", (Hp, region(Hp, "        let rendevous_server = if buffer.remaining() > 0 {", "        Ok(Self {"), "        let mut names = Vec::new();\n        while buffer.remaining() != 0 {\n            names.push(buffer.extract_fqdn()?);\n        }\n        let rendevous_server = if names.is_empty() { None } else { Some(names) };\n\n"),
    (Hp, "                .as_ref()\n                .map(|b| -> usize { b.iter().map(|fqdn| fqdn.byte_size()).sum() })\n                .unwrap_or_default()", "                .iter()\n                .flatten()\n                .fold(0, |sum, name| sum + name.byte_size())"))
