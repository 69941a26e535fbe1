R = "src/rdata/"
HS = "            while buffer.remaining() > 0 {\n                names.push(buffer.extract_fqdn()?);\n            }\n"
TX = "            let txt_size = buffer.extract_u8()?;\n            txt_store.push(\n                String::from_utf8_lossy(buffer.extract_bytes(txt_size as usize)?).to_string(),\n            );\n"
NF = "                .iter()\n                .map(|ch| Flag::try_from(*ch))\n                .collect::<Result<_, _>>()?,"
MUTS = [
    ("k-tkey-err", R + "tkey.rs", "        let error = buffer.extract_u16()?.try_into()?;", "        let error = buffer.extract_u16()?.try_into().unwrap_or(Error::BadSig);", "P22"),
    ("k-srv-weight", R + "srv.rs", "            port: buffer.extract_u16()?,", "            port: buffer.extract_u16().unwrap_or(0),", "P22"),
    ("k-txt-empty", R + "txt.rs", TX, "            let txt_size = buffer.extract_u8()?;\n            let part = String::from_utf8_lossy(buffer.extract_bytes(txt_size as usize)?).to_string();\n            if !part.is_empty() {\n                txt_store.push(part);\n            }\n", "P22"),
    ("k-txt-short", R + "txt.rs", TX, "            let txt_size = (buffer.extract_u8()? as usize).min(buffer.remaining());\n            txt_store.push(\n                String::from_utf8_lossy(buffer.extract_bytes(txt_size)?).to_string(),\n            );\n", "P22"),
    ("k-naptr-skip", R + "naptr.rs", NF, "                .iter()\n                .filter_map(|ch| Flag::try_from(*ch).ok())\n                .collect(),", "P22"),
    ("k-hip-stop", R + "hip.rs", HS, "            while let Ok(name) = buffer.extract_fqdn() {\n                names.push(name);\n            }\n", "P22"),
    ("k-hip-short", R + "hip.rs", "        let public_key = buffer.extract_bytes(pk_len as usize)?.to_vec();", "        let public_key = buffer.extract_bytes((pk_len as usize).min(buffer.remaining()))?.to_vec();", "P22"),
    ("k-loc-version", R + "loc.rs", "            version: buffer.extract_u8()?,", "            version: buffer.extract_u8()? & 0x7F,", "P22"),
    ("k-tlsa-sel", R + "tlsa.rs", "            matching_type: buffer.extract_u8()?.try_into()?,", "            matching_type: buffer.extract_u8()?.try_into().unwrap_or(MatchingType::ExactMatch),", "P22"),
    ("k-uri-nul", R + "uri.rs", "            target: buffer.extract_bytes(buffer.remaining())?.to_vec(),", "            target: buffer.extract_bytes(buffer.remaining())?.iter().copied().take_while(|b| *b != 0).collect(),", "P22"),
    ("k-wks-proto", R + "wks.rs", "            protocol: buffer.extract_u8()?,", "            protocol: buffer.extract_u8()?.max(1),", "P22"),
    ("k-tsig-other", R + "tsig.rs", "        let other_data = buffer.extract_bytes(other_len as usize)?.to_vec();", "        let other_data = buffer.extract_bytes(other_len as usize).map(|b| b.to_vec()).unwrap_or_default();", "P22"),
    ("k-tsig-time", R + "tsig.rs", "        time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);", "        time_signed_extended[3..].copy_from_slice(&buffer.extract_bytes(6)?[1..]);", "P22"),
    ("k-caa-tag", R + "caa.rs", "        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();", "        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_lowercase();", "P22"),
    ("k-hinfo-os", R + "hinfo.rs", "            os: buffer.extract_character_string()?,", "            os: buffer.extract_character_string().unwrap_or_default(),", "P22"),
    ("k-sshfp", R + "sshfp.rs", "            fingerprint: buffer.extract_bytes(buffer.remaining())?.to_vec(),", "            fingerprint: buffer.extract_bytes(buffer.remaining().min(32))?.to_vec(),", "P22"),
    ("k-opt-trunc", R + "opt.rs", "            let opt_data = buffer.extract_bytes(opt_data_len as usize)?;", "            let opt_data = buffer.extract_bytes((opt_data_len as usize).min(buffer.remaining()))?;", "P22"),
    ("k-svcb-stop", R + "svcb.rs", "ParamKey::Ech => Self::Ech(value.extract_bytes(len)?.to_vec()),", "ParamKey::Ech => Self::Ech(value.extract_bytes(len.min(4096))?.to_vec()),", "P22"),
    ("r-hip", R + "hip.rs", HS, "            loop {\n                names.push(buffer.extract_fqdn()?);\n                if buffer.remaining() == 0 {\n                    break;\n                }\n            }\n", ""),
    ("r-txt", R + "txt.rs", TX, "            txt_store.push(String::from_utf8_lossy(&buffer.extract_character_string()?).into_owned());\n", ""),
    ("r-naptr", R + "naptr.rs", "            flags: buffer\n                .extract_character_string()?\n" + NF, "            flags: {\n                let mut flags = Vec::new();\n                for ch in buffer.extract_character_string()? {\n                    flags.push(Flag::try_from(ch)?);\n                }\n                flags\n            },", ""),
    ("r-tsig", R + "tsig.rs", "        time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);", "        for (i, b) in buffer.extract_bytes(6)?.iter().enumerate() {\n            time_signed_extended[i + 2] = *b;\n        }", ""),
    ("r-opt", R + "opt.rs", "        while buffer.remaining() > 0 {\n            let opt_code = buffer.extract_u16()?;", "        while buffer.position() < buffer.as_slice().len() {\n            let opt_code = buffer.extract_u16()?;", ""),
    ("r-apl", R + "apl.rs", "        let n = coded_byte & 0x80 != 0;", "        let n = coded_byte >> 7 == 1;", ""),
    ("r-key", R + "dnssec.rs", "            zone_key: (flags & 0b00000001_00000000) != 0,", "            zone_key: (flags >> 8) & 1 == 1,", ""),
]
