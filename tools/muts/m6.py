D = "src/rdata/dnssec.rs"
MUTS = [
    ("v-nottl", D, "        sig.extend(u32::to_be_bytes(self.original_ttl));\n        sig.extend(u32::to_be_bytes(self.sig_expiration));\n        sig.extend(u32::to_be_bytes(self.sig_inception));\n        sig.extend(u16::to_be_bytes(self.key_tag));\n        sig.extend(self.signers_name.to_bytes());\n        sig.extend(rr_set.to_bytes());",
        "        sig.extend(u32::to_be_bytes(rr_set.ttl()));\n        sig.extend(u32::to_be_bytes(self.sig_expiration));\n        sig.extend(u32::to_be_bytes(self.sig_inception));\n        sig.extend(u16::to_be_bytes(self.key_tag));\n        sig.extend(self.signers_name.to_bytes());\n        sig.extend(rr_set.to_bytes());", "P18"),
    ("v-signer-setname", D, "        sig.extend(self.signers_name.to_bytes());\n        sig.extend(rr_set", "        sig.extend(rr_set.name().to_bytes());\n        sig.extend(rr_set", "P18"),
    ("v-keytag-dnskey", D, "        sig.extend(u16::to_be_bytes(self.key_tag));\n        sig.extend(self.signers", "        sig.extend(u16::to_be_bytes(dnskey.compute_key_tag()));\n        sig.extend(self.signers", "P18"),
    ("v-type-set", D, "        sig.extend_from_slice(&u16::to_be_bytes(self.type_covered.into()));\n        sig.push", "        sig.extend_from_slice(&u16::to_be_bytes(rr_set.set_type().into()));\n        sig.push", "P18"),
    ("v-default-true", D, "            _ => Ok(false),\n        }\n    }\n\n    fn calc", "            Algorithm::Indirect => Ok(true),\n            _ => Ok(false),\n        }\n    }\n\n    fn calc", "P18"),
    ("v-alg-class", D, "        if self.algorithm != dnskey.algorithm {", "        if self.algorithm.len() != dnskey.algorithm.len() {", "P18"),
    ("v-alg-none", D, "        if self.algorithm != dnskey.algorithm {", "        if self.algorithm != dnskey.algorithm && self.algorithm != Algorithm::PrivateDns {", "P18"),
    ("v-rsa-exp3", D, "                let exp_len = if first_byte == 0 {\n                    public_key_data.extract_u16()?", "                let exp_len = if first_byte == 0 {\n                    public_key_data.extract_u8()? as u16", "P18"),
    ("v-dsa-t", D, "                let y = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);", "                let y = BigUint::from_bytes_be(public_key_data.extract_bytes(public_key_data.remaining())?);", ""),
    ("v-dsa-pq", D, "                let p = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);\n                let g =", "                let g = BigUint::from_bytes_be(public_key_data.extract_bytes(64 + t * 8)?);\n                let p =", "P18"),
    ("v-ed-trunc", D, "                    &ring::signature::ED25519,\n                    public_key_data.extract_bytes(public_key_data.remaining())?,", "                    &ring::signature::ED25519,\n                    public_key_data.extract_bytes(public_key_data.remaining().min(32))?,", "P18"),
    ("v-emptysig", D, "        // TODO Verify timeframe of the rrsig record\n", "        if self.signature.is_empty() {\n            return Ok(true);\n        }\n", "P18"),
    ("v-emptyset", D, "        // TODO Verify timeframe of the rrsig record\n", "        if rr_set.to_bytes().is_empty() {\n            return Ok(true);\n        }\n", "P18"),
    ("v-proto", D, "        // TODO Verify timeframe of the rrsig record\n", "        if !dnskey.valid_protocol() {\n            return Ok(false);\n        }\n", "P18"),
    ("v-384-512", D, "            Algorithm::RSA_SHA512 => {\n                use ring::digest;\n                digest::digest(&digest::SHA512, &sig)", "            Algorithm::RSA_SHA512 => {\n                use ring::digest;\n                digest::digest(&digest::SHA512_256, &sig)", "P18"),
    ("v-p384-asn1", D, "                    &ring::signature::ECDSA_P384_SHA384_FIXED,\n                    public", "                    &ring::signature::ECDSA_P384_SHA384_ASN1,\n                    public", "P18,"),
    ("v-p256-asn1", D, "                    &ring::signature::ECDSA_P256_SHA256_FIXED,\n                    public", "                    &ring::signature::ECDSA_P256_SHA256_ASN1,\n                    public", "P18"),
    ("v-sigprefix", D, "                Ok(verifier.verify_prehash(&sig, &signature).is_ok())", "                Ok(verifier.verify_prehash(&sig[..16], &signature).is_ok())", "P18"),
    ("v-notok", D, "                Ok(verifier.verify(&sig, &self.signature).is_ok())\n            }\n            Algorithm::ECDSA_P384", "                Ok(verifier.verify(&sig, &self.signature).is_ok() || sig.is_empty())\n            }\n            Algorithm::ECDSA_P384", ""),
    ("v-notok2", D, "                Ok(verifier.verify(&sig, &self.signature).is_ok())\n            }\n            Algorithm::ECDSA_P384", "                Ok(verifier.verify(&sig, &self.signature).is_ok() || dnskey.public_key.is_empty())\n            }\n            Algorithm::ECDSA_P384", "P18"),
    ("s-trunc", D, "        let mut sig = self.to_bytes();\n        sig.extend(rr_set.to_bytes());\n", "        let mut sig = self.to_bytes();\n        sig.extend(rr_set.to_bytes());\n        sig.truncate(u16::MAX as usize);\n", "P19"),
    ("s-swaptimes", D, "            sig_expiration: expiration,\n            sig_inception: inception,", "            sig_expiration: inception,\n            sig_inception: expiration,", "P19"),
    ("s-micros", D, "        let inception = inception\n            .duration_since(UNIX_EPOCH)\n            .map_err(DnsError::InvalidDnsSecSignatureTimespan)?\n            .as_secs() as u32;", "        let inception = inception\n            .duration_since(UNIX_EPOCH)\n            .map_err(DnsError::InvalidDnsSecSignatureTimespan)?\n            .as_secs_f32() as u32;", "P19"),
    ("s-labels", D, "            labels: rr_set.name().label_count(),", "            labels: rr_set.name().label_count().max(1),", "P19"),
    ("s-kt-odd", D, "        key_tag += (key_tag >> 16) & 0xFFFF;\n", "", "P19"),
    ("s-kt-swap", D, "ac + if i & 1 != 0 {", "ac + if i & 1 == 0 {", "P19"),
    ("s-256-512", D, "                        &ring::signature::RSA_PKCS1_SHA512,", "                        &ring::signature::RSA_PKCS1_SHA384,", "P19"),
    ("s-ed-ctx", D, "                let signature = ed448_key.sign_raw(data);", "                let signature = ed448_key.sign_ctx(&[0], data);", "P19"),
    ("s-md5half", D, "                let mut hasher = Md5::new();\n                hasher.update(data);\n                let digest = hasher.finalize();", "                let mut hasher = Md5::new();\n                for chunk in data.chunks_exact(8) { hasher.update(chunk); }\n                let digest = hasher.finalize();", "P19"),
    # refactorings
    ("r-loop", D, "        let mut sig = self.to_bytes();\n        sig.extend(rr_set.to_bytes());\n", "        let set = rr_set.to_bytes();\n        let own = self.to_bytes();\n        let mut sig = Vec::with_capacity(own.len() + set.len());\n        for part in [&own, &set] {\n            sig.extend_from_slice(part);\n        }\n", ""),
    ("r-tbs", D, "        let mut sig = Vec::with_capacity(self.byte_size());\n        sig.extend_from_slice(&u16::to_be_bytes(self.type_covered.into()));", "        let mut sig: Vec<u8> = Vec::new();\n        let ty = u16::from(self.type_covered);\n        sig.push((ty >> 8) as u8);\n        sig.push(ty as u8);", ""),
    ("r-early", D, "            _ => Ok(false),\n        }\n    }\n\n    fn calc", "            Algorithm::Indirect | Algorithm::PrivateDns | Algorithm::PrivateOid => Ok(false),\n        }\n    }\n\n    fn calc", ""),
    ("r-match", D, "                Ok(verifier.verify(scheme, &sig, &self.signature).is_ok())", "                match verifier.verify(scheme, &sig, &self.signature) {\n                    Ok(()) => Ok(true),\n                    Err(_) => Ok(false),\n                }", ""),
    ("r-helper", D, ["        let expiration = expiration\n            .duration_since(UNIX_EPOCH)\n            .map_err(DnsError::InvalidDnsSecSignatureTimespan)?\n            .as_secs() as u32;\n        let inception = inception\n            .duration_since(UNIX_EPOCH)\n            .map_err(DnsError::InvalidDnsSecSignatureTimespan)?\n            .as_secs() as u32;\n", "    fn calculate_signature("],
        ["        let expiration = Self::secs(expiration)?;\n        let inception = Self::secs(inception)?;\n", "    fn secs(t: &SystemTime) -> Result<u32, DnsError> {\n        match t.duration_since(UNIX_EPOCH) {\n            Ok(d) => Ok(d.as_secs() as u32),\n            Err(e) => Err(DnsError::InvalidDnsSecSignatureTimespan(e)),\n        }\n    }\n\n    fn calculate_signature("], ""),
    ("r-kt", D, "        let mut key_tag = self\n            .to_bytes()\n            .iter()\n            .enumerate()\n            .fold(0_u32, |ac, (i, b)| {\n                ac + if i & 1 != 0 {\n                    *b as u32\n                } else {\n                    (*b as u32) << 8\n                }\n            });", "        let mut key_tag = 0u32;\n        for (i, b) in self.to_bytes().into_iter().enumerate() {\n            if i % 2 == 0 {\n                key_tag += u32::from(b) << 8;\n            } else {\n                key_tag += u32::from(b);\n            }\n        }", ""),
    ("r-edkey", D, "                let verifier = ring::signature::UnparsedPublicKey::new(\n                    &ring::signature::ED25519,\n                    public_key_data.extract_bytes(public_key_data.remaining())?,\n                );", "                let verifier = ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, dnskey.public_key.as_slice());", ""),
    ("r-hash1", D, "                let mut hasher = Sha1::new();\n                hasher.update(sig);\n                hasher.finalize().to_vec()", "                Sha1::digest(&sig).to_vec()", ""),
]
