D = "src/rdata/dnssec.rs"
S = "src/resource_record_set.rs"
H = "src/rdata/dhcid.rs"
PL = "            let pos = binary_records\n                .binary_search(&bin)\n                .unwrap_or_else(|insert_pos| insert_pos);\n"
LOOP = "        let mut sig_size = 0;\n        self.records.iter().for_each(|rr| {\n            let bin = rr.to_bytes();\n" + PL + "            sig_size += name_bin.len() + 10 + bin.len();\n            binary_records.insert(pos, bin);\n        });\n"
MUTS = [
    ("d-order", D, "        digest_data.extend_from_slice(&owner_name.to_bytes());\n        digest_data.extend_from_slice(&dnskey.to_bytes());", "        digest_data.extend_from_slice(&dnskey.to_bytes());\n        digest_data.extend_from_slice(&owner_name.to_bytes());", "P20"),
    ("d-noowner-root", D, "        digest_data.extend_from_slice(&owner_name.to_bytes());\n", "        if !owner_name.is_root() {\n            digest_data.extend_from_slice(&owner_name.to_bytes());\n        }\n", "P20"),
    ("d-keyonly", D, "        digest_data.extend_from_slice(&dnskey.to_bytes());", "        digest_data.extend_from_slice(&dnskey.public_key);", "P20"),
    ("d-384", D, "            DigestType::SHA384 => &ring::digest::SHA384,", "            DigestType::SHA384 => &ring::digest::SHA512,", "P20"),
    ("d-trunc", D, "            .as_ref()\n            .to_vec())\n    }\n}\n\nimpl TryFrom<u8> for DigestType", "            .as_ref()\n            .iter()\n            .take(48)\n            .copied()\n            .collect())\n    }\n}\n\nimpl TryFrom<u8> for DigestType", "P20"),
    ("d-alg", D, "            algorithm: dnskey.algorithm,\n            digest_type,", "            algorithm: if dnskey.public_key.is_empty() { Algorithm::Indirect } else { dnskey.algorithm },\n            digest_type,", "P20"),
    ("d-dhcid-order", H, "        ctx.update(identifier);\n        ctx.update(&fqdn.to_bytes());", "        ctx.update(&fqdn.to_bytes());\n        ctx.update(identifier);", "P20"),
    ("d-dhcid-256", H, "        let mut ctx = digest::Context::new(&digest::SHA256);", "        let mut ctx = digest::Context::new(&digest::SHA512_256);", "P20"),
    ("d-dhcid-code", H, "        ctx.update(identifier);\n", "        if identifier_code == IdentifierType::DUID {\n            ctx.update(&[0]);\n        }\n        ctx.update(identifier);\n", "P20"),
    ("d-b64", D, "        general_purpose::STANDARD.encode(&self.signature)", "        general_purpose::STANDARD_NO_PAD.encode(&self.signature)", "P20"),
    ("d-b64url", D, "        general_purpose::STANDARD.encode(&self.public_key)", "        general_purpose::URL_SAFE.encode(&self.public_key)", "P20"),
    ("c-nosort", S, PL, "            let pos = binary_records.len();\n", "P21"),
    ("c-ok-skip", S, LOOP, LOOP.replace("            binary_records.insert(pos, bin);", "            if pos < 64 {\n                binary_records.insert(pos, bin);\n            }"), "P21"),
    ("c-bylen", S, LOOP, "        let mut sig_size = 0;\n        self.records.iter().for_each(|rr| {\n            let bin = rr.to_bytes();\n            sig_size += name_bin.len() + 10 + bin.len();\n            binary_records.push(bin);\n        });\n        binary_records.sort_by_key(|b: &Vec<u8>| b.len());\n", "P21"),
    ("c-rev", S, LOOP, "        let mut sig_size = 0;\n        self.records.iter().for_each(|rr| {\n            let bin = rr.to_bytes();\n            sig_size += name_bin.len() + 10 + bin.len();\n            binary_records.push(bin);\n        });\n        binary_records.sort_by(|a: &Vec<u8>, b| b.cmp(a));\n", "P21"),
    ("c-firstname", S, "            binary.extend_from_slice(&name_bin);\n", "            if binary.is_empty() {\n                binary.extend_from_slice(&name_bin);\n            }\n", "P21"),
    ("c-classttl", S, "            binary.extend_from_slice(&u16::to_be_bytes(self.set_class.into()));\n            binary.extend_from_slice(&u32::to_be_bytes(self.ttl));\n", "            binary.extend_from_slice(&u32::to_be_bytes(self.ttl));\n            binary.extend_from_slice(&u16::to_be_bytes(self.set_class.into()));\n", "P21"),
    ("c-len", S, "            binary.extend_from_slice(&u16::to_be_bytes(bin.len() as u16));", "            binary.extend_from_slice(&u16::to_be_bytes(bin.len() as u8 as u16));", "P21"),
    ("c-reorder", S, "        self.records.sort_by_key(|a| a.to_bytes());", "        self.records.sort_by_key(|a| a.byte_size());", "P21"),
    ("c-reorder-dedup", S, "        self.records.sort_by_key(|a| a.to_bytes());", "        self.records.sort_by_key(|a| a.to_bytes());\n        self.records.truncate(2);", "P21"),
    ("r-sort", S, LOOP, "        for rr in &self.records {\n            binary_records.push(rr.to_bytes());\n        }\n        binary_records.sort();\n        let sig_size: usize = binary_records.iter().map(|b: &Vec<u8>| name_bin.len() + 10 + b.len()).sum();\n", ""),
    ("r-sortu", S, LOOP, "        binary_records.extend(self.records.iter().map(|rr| rr.to_bytes()));\n        binary_records.sort_unstable();\n        let sig_size = 0;\n", ""),
    ("r-sortby", S, LOOP, "        for rr in self.records.iter() {\n            binary_records.push(rr.to_bytes());\n        }\n        binary_records.sort_by(|a: &Vec<u8>, b| a.cmp(b));\n        let sig_size = 0;\n", ""),
    ("r-match", S, PL, "            let pos = match binary_records.binary_search(&bin) {\n                Ok(p) => p,\n                Err(p) => p,\n            };\n", ""),
    ("r-ppoint", S, PL, "            let pos = binary_records.partition_point(|b| *b < bin);\n", ""),
    ("r-btree", S, LOOP, "        let sig_size = 0;\n        let mut set = std::collections::BTreeSet::new();\n        for rr in self.records.iter() {\n            set.insert(rr.to_bytes());\n        }\n        binary_records.extend(set);\n", ""),
    ("r-sortkey", S, "        self.records.sort_by_key(|a| a.to_bytes());", "        self.records.sort_by(|a, b| a.to_bytes().cmp(&b.to_bytes()));", ""),
    ("r-cached", S, "        self.records.sort_by_key(|a| a.to_bytes());", "        self.records.sort_by_cached_key(|a| a.to_bytes());", ""),
    ("r-ds", D, "        let mut digest_data = Vec::with_capacity(owner_name.byte_size() + dnskey.byte_size());\n        digest_data.extend_from_slice(&owner_name.to_bytes());\n        digest_data.extend_from_slice(&dnskey.to_bytes());", "        let digest_data = [owner_name.to_bytes(), dnskey.to_bytes()].concat();", ""),
    ("r-dhcid", H, "        let mut ctx = digest::Context::new(&digest::SHA256);\n        ctx.update(identifier);\n        ctx.update(&fqdn.to_bytes());\n", "        let mut data = identifier.to_vec();\n        data.append(&mut fqdn.to_bytes());\n        let mut ctx = digest::Context::new(&digest::SHA256);\n        ctx.update(&data);\n", ""),
]
