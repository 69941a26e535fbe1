R = "src/rdata/"
MUTS = [
    # consistent or one-sided wire changes
    ("y-tkey-shortother", R + "tkey.rs", "        let other_data = buffer.extract_bytes(other_size as usize)?.to_vec();", "        let other_data = buffer.extract_bytes((other_size as usize).min(buffer.remaining()))?.to_vec();", "P22,P26,P04"),
    ("y-tkey-key255", R + "tkey.rs", "        buf.extend(u16::to_be_bytes(self.key_data.len() as u16));", "        buf.extend(u16::to_be_bytes(self.key_data.len() as u8 as u16));", "P04,P15"),
    ("y-tkey-mode", R + "tkey.rs", "6..=65534 => Ok(Self::Available(value)),", "6..=65534 => Ok(Self::Available(value.swap_bytes())),", "P09,P04"),
    ("y-tkey-mode2", R + "tkey.rs", "6..=65534 => Ok(Self::Available(value)),", "6..=65535 => Ok(Self::Available(value)),", "P09"),
    ("y-tkey-err", R + "tkey.rs", "1..=15 => Ok(Self::NonExtendedRcode(value)),", "1..=15 => Ok(Self::NonExtendedRcode(value & 0x7)),", "P09,P22"),
    ("y-tsig-badtrunc", R + "tsig.rs", ["            22 => Ok(Self::BadTrunc),", "            Error::BadTrunc => 22,"], ["            21 => Ok(Self::BadTrunc),", "            Error::BadTrunc => 21,"], "P09,P15"),
    ("y-tsig-time", R + "tsig.rs", ["        time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);", "        buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes"], ["        time_signed_extended[..6].copy_from_slice(buffer.extract_bytes(6)?);\n        time_signed_extended.rotate_right(2);", "        buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes"], ""),
    ("y-tsig-time2", R + "tsig.rs", "            time_signed: u64::from_be_bytes(time_signed_extended),", "            time_signed: u64::from_be_bytes(time_signed_extended) & 0xFFFF_FFFF,", "P22,P04"),
    ("y-tsig-swap", R + "tsig.rs", ["        let original_id = buffer.extract_u16()?;\n        let error = buffer.extract_u16()?.try_into()?;", "        buf.extend(self.original_id.to_be_bytes()); // 16 b\n        buf.extend(u16::to_be_bytes(self.error.into())); // 16 b"], ["        let error = buffer.extract_u16()?.try_into()?;\n        let original_id = buffer.extract_u16()?;", "        buf.extend(u16::to_be_bytes(self.error.into())); // 16 b\n        buf.extend(self.original_id.to_be_bytes()); // 16 b"], "P15"),
    ("y-naptr-u", R + "naptr.rs", "        match value as char {", "        match (value as char).to_ascii_uppercase() {", "P22,P09,P26"),
    ("y-naptr-reg", R + "naptr.rs", "        buff.push(self.regexp.len() as u8);\n        buff.extend_from_slice(self.regexp.as_bytes());\n        buff.append(&mut self.replacement.to_bytes());", "        buff.push(self.regexp.chars().count() as u8);\n        buff.extend_from_slice(self.regexp.as_bytes());\n        buff.append(&mut self.replacement.to_bytes());", "P04"),
    ("y-naptr-size", R + "naptr.rs", "            + self.regexp.len()\n            + self.replacement.byte_size()", "            + self.regexp.chars().count()\n            + self.replacement.byte_size()", "P03"),
    ("y-naptr-off", R + "naptr.rs", "                .to_bytes_compressed(names, offset + buff.len()),", "                .to_bytes_compressed(names, offset + self.service.len() + self.regexp.len() + self.flags.len() + 8),", "P08"),
    ("y-loc-swap", R + "loc.rs", "            latitude: buffer.extract_u32()?,\n            longitude: buffer.extract_u32()?,", "            longitude: buffer.extract_u32()?,\n            latitude: buffer.extract_u32()?,", "P04,P15"),
    ("y-ips-none", R + "ipseckey.rs", "                buffer.extract_u8()?;\n                Gateway::None", "                if buffer.remaining() > 0 {\n                    buffer.extract_u8()?;\n                }\n                Gateway::None", "P22,P26,P04"),
    ("y-ips-alg", R + "ipseckey.rs", "        buf.push(self.gateway.gateway_type());\n        buf.push(self.algorithm.into());", "        buf.push(self.algorithm.into());\n        buf.push(self.gateway.gateway_type());", "P15,P04"),
    ("y-hip-some", R + "hip.rs", "            Some(names)\n", "            names.dedup();\n            Some(names)\n", "P04,P22"),
    ("y-hip-len", R + "hip.rs", "        buf.push(self.hit.len() as u8);\n        buf.push(self.public_key_algorithm.into());", "        buf.push(self.hit.len().min(128) as u8);\n        buf.push(self.public_key_algorithm.into());", "P04"),
    ("y-apl-n", R + "apl.rs", "        let n = coded_byte & 0x80 != 0;", "        let n = coded_byte & 0x80 == 0x80 && family == 1;", "P04,P22"),
    ("y-apl-mask", R + "apl.rs", "extract_bytes((coded_byte & 0x7F) as usize)", "extract_bytes((coded_byte & 0x3F) as usize)", "P22"),
    ("y-svcb-port", R + "svcb.rs", "            ParamKey::Port => Self::Port(value.extract_u16()?),", "            ParamKey::Port => Self::Port(u16::from_le_bytes(value.extract_bytes(2)?.try_into()?)),", "P04,P15"),
    ("y-svcb-ord", R + "svcb.rs", "        u16::from(*self).cmp(&u16::from(*other))", "        (u16::from(*self) as u8).cmp(&(u16::from(*other) as u8))", "P04,P22,P15,P25"),
    ("y-svcb-ord2", R + "svcb.rs", "        u16::from(*self).cmp(&u16::from(*other))", "        u16::from(*other).cmp(&u16::from(*self))", "P15"),
    ("y-svcb-priv", R + "svcb.rs", "            65280..=65534 => Ok(Self::Private(value)),", "            65280..=65533 => Ok(Self::Private(value)),", "P09"),
    ("y-svcb-privnum", R + "svcb.rs", "            Self::Private { num, bytes: _ } => ParamKey::Private(*num),", "            Self::Private { num, bytes: _ } => ParamKey::Private(*num | 0xFF00),", ""),
    # packets
    ("y-pk-take", "src/packet.rs", "        self.header.auth_count = 0;\n        std::mem::take(&mut self.authorities)", "        self.header.auth_count = 0;\n        std::mem::take(&mut self.additional)", "P06"),
    ("y-pk-cap", "src/packet.rs", "        self.questions.push(question);\n", "        if self.questions.len() < 255 {\n            self.questions.push(question);\n        }\n", "P06,P25"),
    ("y-pk-hdr", "src/packet.rs", "        self.header = header;", "        self.header.id = header.id;\n        self.header.flags = header.flags;", "P06,P12,P25"),
    ("y-pk-size", "src/packet.rs", "        let mut size = Header::SIZE;\n        for ques in self.questions.iter() {", "        let mut size = Header::SIZE;\n        for ques in self.questions.iter().take(u8::MAX as usize) {", "P03"),
    ("y-pk-comp", "src/packet.rs", "        for rec in self.authorities.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));", "        used_fqdn.clear();\n        for rec in self.authorities.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));", ""),
    # buffer
    ("y-buf-str", "src/buffer.rs", "        let string = String::from_utf8(self.extract_character_string()?)\n            .map_err(|_| DnsError::LengthViolation)?;", "        let string = String::from_utf8_lossy(&self.extract_character_string()?).into_owned();", "P22,P13,P26"),
    ("y-buf-peek", "src/buffer.rs", "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n        Ok(&self.data[self.pos..self.pos + len])", "        if self.pos + len > self.data.len() {\n            return Err(DnsError::LengthViolation);\n        }\n        Ok(&self.data[self.pos..self.pos + len])", "P16"),
    ("y-buf-fq-mask", "src/buffer.rs", "            if len & COMPRESSION_MASK == COMPRESSION_MASK {", "            if len & COMPRESSION_MASK != 0 {", "P14"),
    ("y-buf-fq-ge", "src/buffer.rs", "                if target >= label_start {", "                if target > label_start {", "P02,P14"),
    ("y-buf-fq-first", "src/buffer.rs", "                label_start = target;", "                label_start = label_start.max(target + 1);", "P02,P14"),
    # names
    ("y-fq-case", "src/fqdn.rs", "            if let Some(pointer) = names.get(&remaining_hash) {", "            if let Some(pointer) = names.get(&remaining_hash).filter(|p| **p >= crate::header::Header::SIZE) {", ""),
    ("y-fq-sizecomp", "src/fqdn.rs", "                size += self.data[i].len() + 1;\n            }\n        }\n\n        // Add 0 delimiter to size", "                size += self.data[i].len().min(63) + 1;\n            }\n        }\n\n        // Add 0 delimiter to size", "P03"),
    # record
    ("y-rr-ttl", "src/resource.rs", "        let time_to_live = u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?);", "        let time_to_live = u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?) & 0x7FFF_FFFF;", "P05"),
    ("y-rr-zero", "src/resource.rs", "        let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n", "        let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n        let data_len = rdata_buffer.position() - buffer.position();\n", "P07"),
]
