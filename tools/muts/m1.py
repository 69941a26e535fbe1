PK="src/packet.rs"; RR="src/resource.rs"; Q="src/question.rs"; F="src/fqdn.rs"; B="src/buffer.rs"; M="src/rdata/mod.rs"; SOA="src/rdata/soa.rs"
MUTS=[
("rr-off", RR, ".to_bytes_compressed(names, offset + buffer.len() + 2);", ".to_bytes_compressed(names, offset + buffer.len());", "P08"),
("rr-rdlen-size", RR, "buffer.extend_from_slice(&u16::to_be_bytes(compressed_rdata.len() as u16));", "buffer.extend_from_slice(&u16::to_be_bytes(self.rdata.byte_size() as u16));", "P07,P05"),
("rr-noadv", RR, "let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n\n        buffer.advance(data_len as usize)?;", "let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n        let used = rdata_buffer.position();\n        buffer.set_position(used)?;", "P07"),
("rr-win", RR, "let mut rdata_buffer = buffer.sub_buffer(data_len as usize)?;", "let rest = buffer.remaining();\n        let mut rdata_buffer = buffer.sub_buffer(rest)?;", "P07"),
("rr-ttl31", RR, "buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));\n\n        let rdata", "buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live & 0x7fff_ffff));\n\n        let rdata", "P05"),
("rr-class-mask", RR, "Into::<u16>::into(self.a_class) | MDNS_UNICAST_RESPONSE", "1 | MDNS_UNICAST_RESPONSE", "P05"),
("q-compr-noflag", Q, "let fused_last_byte = if self.unicast_response {\n                const MDNS_UNICAST_RESPONSE: u16 = 1 << 15;\n                self.q_class as u16 | MDNS_UNICAST_RESPONSE\n            } else {\n                self.q_class as u16\n            };\n\n", "let fused_last_byte = self.q_class as u16;\n", "P05"),
("pk-order", PK, "for rec in self.answers.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));", "for rec in self.answers.iter().rev() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));", "P06"),
("pk-off", PK, "for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));", "let base = bin.len();\n        for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, base));", "P08"),
("pk-swap", PK, "packet.authorities = authorities;", "packet.authorities = authorities.clone();\n        if packet.header.ans_count == 0 { packet.answers = authorities; packet.authorities = Vec::new(); }", "P06"),
("pk-parse-until-empty", PK, "additionals.push(ResourceRecord::try_from(buffer as &mut _)?);", "if buffer.remaining() == 0 { break; }\n            additionals.push(ResourceRecord::try_from(buffer as &mut _)?);", "P06"),
("pk-take", PK, "self.header.auth_count = 0;\n", "", "P06"),
("pk-add-inc", PK, "self.additional.push(add);\n        self.header.add_count = self.additional.len() as u16;", "self.additional.push(add);\n        self.header.add_count |= self.additional.len() as u16;", "P06"),
("fq-off", F, "offset += self.data[i].len() + 1;\n            }\n        }\n\n        // Add 0 delimiter to buffer", "offset += self.data[i].len();\n            }\n        }\n\n        // Add 0 delimiter to buffer", "P08"),
("fq-mask", F, "(*pointer as u16 | COMPRESSION_MASK_U16)", "((*pointer as u16 & 0x0fff) | COMPRESSION_MASK_U16)", "P08"),
("fq-max", F, "!COMPRESSION_MASK_U16 as usize;", "!COMPRESSION_MASK_U16 as usize + 1;", "P08"),
("fq-hash", F, "let remaining_fqdn = &self.data[i..];\n            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            if let Some(pointer)", "let remaining_fqdn = &self.data[i..(i + 4).min(self.data.len())];\n            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            if let Some(pointer)", "P08"),
("soa-off", SOA, "buf.extend(self.rname.to_bytes_compressed(names, offset + buf.len()));", "buf.extend(self.rname.to_bytes_compressed(names, offset + self.mname.byte_size()));", "P08"),
("sub-start", B, "data: &self.data[0..self.pos + len],\n            pos: self.pos,", "data: &self.data[self.pos..self.pos + len],\n            pos: 0,", "P07"),
("sub-long", B, "data: &self.data[0..self.pos + len],", "data: self.data,", "P07"),
("rd-cds", M, "RecordType::CDS => Self::CDS(Ds::try_from(buffer)?),", "RecordType::CDS => Self::DS(Ds::try_from(buffer)?),", "P10"),
("rd-eui", M, "RecordType::CDNSKEY => Self::CDNSKEY(DnsKey::try_from(buffer)?),", "RecordType::CDNSKEY => Self::DNSKEY(DnsKey::try_from(buffer)?),", "P10"),
("rd-txt-comp", M, "            Self::HINFO(ref hinfo) => hinfo.to_bytes(),\n            Self::MINFO(ref minfo) => minfo.to_bytes_compressed", "            Self::HINFO(_) => Vec::new(),\n            Self::MINFO(ref minfo) => minfo.to_bytes_compressed", "P10"),
("sshfp-type", "src/rdata/eui64.rs", "RecordType::EUI64", "RecordType::EUI48", "P10"),
("hash-nosep", "src/util.rs", "fqdn.hash(&mut hash);", "for l in fqdn { hash.write(l); }", "P08"),
("hash-last3", "src/util.rs", "fqdn.hash(&mut hash);", "fqdn[fqdn.len().saturating_sub(3)..].hash(&mut hash);", "P08"),
# refactorings
("R-pk-helper", [PK,PK], ["        for rec in self.answers.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));\n        }\n        for rec in self.authorities.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));\n        }\n        for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));\n        }", "impl ByteConvertible for Packet"],
 ["        Self::append_compressed(&mut bin, &self.answers, &mut used_fqdn);\n        Self::append_compressed(&mut bin, &self.authorities, &mut used_fqdn);\n        Self::append_compressed(&mut bin, &self.additional, &mut used_fqdn);\n", "impl Packet {\n    fn append_compressed(bin: &mut Vec<u8>, recs: &[ResourceRecord], names: &mut std::collections::HashMap<u64, usize>) {\n        for rec in recs {\n            let off = bin.len();\n            let bytes = rec.to_bytes_compressed(names, off);\n            bin.extend(bytes);\n        }\n    }\n}\n\nimpl ByteConvertible for Packet"], ""),
("R-pk-chain", PK, "        for rec in self.answers.iter() {\n            bin.extend_from_slice(&rec.to_bytes());\n        }\n        for rec in self.authorities.iter() {\n            bin.extend_from_slice(&rec.to_bytes());\n        }\n        for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes());\n        }", "        for rec in self.answers.iter().chain(self.authorities.iter()).chain(self.additional.iter()) {\n            bin.extend_from_slice(&rec.to_bytes());\n        }", ""),
("R-pk-collect", PK, "        let mut answers = Vec::with_capacity(packet.header.ans_count as usize);\n        for _ in 0..packet.header.ans_count {\n            // packet.add_answer(ResourceRecord::try_from(buffer as &mut _)?);\n            answers.push(ResourceRecord::try_from(buffer as &mut _)?);\n        }\n", "        let answers = (0..packet.header.ans_count).map(|_| ResourceRecord::try_from(buffer as &mut _)).collect::<Result<Vec<_>, _>>()?;\n", ""),
("R-pk-while", PK, "        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);\n        for _ in 0..packet.header.auth_count {\n            authorities.push(ResourceRecord::try_from(buffer as &mut _)?);\n        }\n", "        let mut authorities = Vec::new();\n        while authorities.len() < packet.header.auth_count as usize {\n            authorities.push(ResourceRecord::try_from(buffer as &mut _)?);\n        }\n", ""),
("R-fq-enum", F, "for i in 0..self.data.len() {\n            if self.data[i].is_empty() {\n                // An empty label would terminate the name\n                continue;\n            }\n\n            let remaining_fqdn = &self.data[i..];\n            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            if let Some(pointer) = names.get(&remaining_hash) {\n                let compressed_name = (*pointer as u16 | COMPRESSION_MASK_U16).to_be_bytes();\n                buffer.extend_from_slice(&compressed_name);\n                return buffer;\n            } else {\n                buffer.push(self.data[i].len() as u8);\n                buffer.extend_from_slice(&self.data[i]);\n\n                // Only 14 bits are available to encode the offset in a pointer\n                if offset <= MAX_POINTER_OFFSET {\n                    names.insert(remaining_hash, offset);\n                }\n                offset += self.data[i].len() + 1;\n            }\n        }",
 "for (i, label) in self.data.iter().enumerate() {\n            if label.is_empty() {\n                continue;\n            }\n            let key = hash_fqdn(&self.data[i..]);\n            if let Some(&pointer) = names.get(&key) {\n                buffer.extend((pointer as u16 | COMPRESSION_MASK_U16).to_be_bytes());\n                return buffer;\n            }\n            if offset <= MAX_POINTER_OFFSET {\n                names.insert(key, offset);\n            }\n            buffer.push(label.len() as u8);\n            buffer.extend_from_slice(label);\n            offset += 1 + label.len();\n        }", ""),
("R-fq-fn", F, "self.iter().fold(1, |acc, label| {\n            acc + if !label.is_empty() {\n                1 + label.len()\n            } else {\n                0\n            }\n        })", "1 + self.iter().filter(|l| !l.is_empty()).map(|l| l.len() + 1).sum::<usize>()", ""),
("R-rr-rdlen", RR, "        let rdata = self.rdata.to_bytes();\n        buffer.extend_from_slice(&u16::to_be_bytes(rdata.len() as u16));\n\n        buffer.extend_from_slice(&rdata);\n", "        let pos = buffer.len();\n        buffer.extend_from_slice(&[0, 0]);\n        buffer.extend_from_slice(&self.rdata.to_bytes());\n        let len = (buffer.len() - pos - 2) as u16;\n        buffer[pos..pos + 2].copy_from_slice(&len.to_be_bytes());\n", ""),
("R-rr-parse", RR, "let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n\n        buffer.advance(data_len as usize)?;", "let parsed = RecordData::from(a_type, &mut rdata_buffer);\n        buffer.advance(data_len as usize)?;\n        let rdata = parsed?;", ""),
("R-q-class", Q, "let bin_val = buffer.extract_u16()?;\n            if bin_val & MDNS_UNICAST_RESPONSE > 0 {\n                (QClass::try_from(bin_val & !MDNS_UNICAST_RESPONSE)?, true)\n            } else {\n                (QClass::try_from(bin_val)?, false)\n            }", "let bin_val = buffer.extract_u16()?;\n            let flag = bin_val >> 15 == 1;\n            (QClass::try_from(bin_val & 0x7fff)?, flag)", ""),
("R-buf", B, "Ok(u16::from_be_bytes(self.extract_bytes(2)?.try_into()?))", "let b = self.extract_bytes(2)?;\n        Ok((b[0] as u16) << 8 | b[1] as u16)", ""),
]
