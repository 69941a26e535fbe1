B = "src/buffer.rs"
MUTS = [
    ("e-class", "src/question.rs", "_ => Err(DnsError::InvalidClass(number)),", "_ => Err(DnsError::InvalidType(number)),", "P26"),
    ("e-tls", "src/rdata/tlsa.rs", "_ => Err(DnsError::InvalidTLSACertUsage(value)),", "_ => Err(DnsError::InvalidTLSASelector(value)),", "P26"),
    ("e-naptr", "src/rdata/naptr.rs", "_ => Err(DnsError::InvalidNaptrFlag(value)),", "_ => Err(DnsError::InvalidPacketData),", "P26"),
    ("e-peek", B, "    pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {\n        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);", "    pub fn peek_bytes(&self, len: usize) -> Result<&[u8], DnsError> {\n        if len > self.remaining() {\n            return Err(DnsError::UnresolveableCompressionPointer);", "P26"),
    ("e-ptr", B, "return Err(DnsError::UnresolveableCompressionPointer);", "return Err(DnsError::LengthViolation);", "P26"),
    ("e-cut", B, "                // Length encoded in FQDN would run out of the buffer\n                return Err(DnsError::LengthViolation);", "                // Length encoded in FQDN would run out of the buffer\n                return Err(if data.is_empty() { DnsError::LengthViolation } else { DnsError::InvalidPacketData });", "P26"),
    ("e-soa", "src/rdata/soa.rs", "buffer.extract_fqdn()?", "buffer.extract_fqdn().map_err(|_| DnsError::InvalidPacketData)?", "P26"),
    ("e-apl", "src/rdata/apl.rs", "DnsError::InvalidAplFamily(val)", "DnsError::InvalidAplFamily(val & 0xFF)", "P26"),
    ("e-apl2", "src/rdata/apl.rs", "DnsError::InvalidAplFamily(val)", "DnsError::LengthViolation", "P26"),
    ("e-ips", "src/rdata/ipseckey.rs", "DnsError::InvalidIpSecKeyGatewayType(val)", "DnsError::InvalidIpSecKeyGatewayType(val.min(4))", "P26"),
    ("e-dhcid", "src/rdata/dhcid.rs", "DnsError::InvalidDigestType(digest_type_code)", "DnsError::InvalidDigestType(0)", "P26"),
    ("e-csync", "src/rdata/csync.rs", "return Err(DnsError::InvalidCsyncFlag(value));", "return Err(DnsError::InvalidCsyncFlag(value & 3));", "P26"),
    ("e-rr", "src/resource.rs", "_ => Err(DnsError::InvalidType(number)),", "_ => Err(DnsError::InvalidClass(number)),", "P26"),
    ("e-src", "src/error.rs", "            _ => None,", "            _ => Some(self),", "P26"),
    ("e-src2", "src/error.rs", "            _ => None,", "            Self::LengthViolation => Some(self),\n            _ => None,", "P26"),
    ("e-sign", "src/rdata/dnssec.rs", "            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),", "            Self::PrivateOid => Err(DnsError::InvalidDnsSecAlgorithm(253)),", "P26"),
    ("e-sign2", "src/rdata/dnssec.rs", "            Self::Indirect => Err(DnsError::InvalidDnsSecAlgorithm((*self).into())),", "            Self::Indirect => Err(DnsError::DnsSecSigningError(\"indirect\".into())),", "P26"),
    ("e-ok1", "src/rdata/soa.rs", "buffer.extract_fqdn()?", "match buffer.extract_fqdn() {\n                Ok(n) => n,\n                Err(e) => return Err(e),\n            }", ""),
    ("e-ok2", B, "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n\n        self.pos += len;", "        self.advance(len)?;", ""),
    ("e-ok3", "src/error.rs", "        match self {\n            Self::InvalidDnsSecSignatureTimespan(err) => Some(err),\n            _ => None,\n        }", "        if let Self::InvalidDnsSecSignatureTimespan(err) = self {\n            Some(err)\n        } else {\n            None\n        }", ""),
]
