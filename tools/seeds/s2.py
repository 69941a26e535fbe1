H = "use maybe_dns::*;\nuse maybe_dns::rdata::*;\n#[allow(unused_imports)]\nuse std::convert::{TryFrom, TryInto};\nfn main() {\n%s}\n"
def rr(n, ty, d, ttl=60):
    return 'ResourceRecord::new(FQDN::new("%s"), RecordType::%s, RecordClass::IN, %s, RecordData::%s(%s))' % (n, ty, ttl, ty, d)
BUGS = [
 dict(id="rr-ttl-cap", property="P05", needs="a record with a time to live of 2^31 or more", breaks="the time to live is capped when a record is read",
  edits=[("src/resource.rs", "let time_to_live = u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?);", "let time_to_live =\n            u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?).min(i32::MAX as u32);")],
  demo=H % ('''    for ttl in [0u32, 1, 3600, 0x7FFF_FFFF, 0x8000_0000, u32::MAX] {
        let r = %s;
        let b = r.to_bytes();
        assert_eq!(ResourceRecord::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap(), r);
    }
''' % rr("a.example", "A", "A::from(0x01020304u32)", "ttl"))),
 dict(id="packet-authority-cut", property="P06", needs="a message with more than 255 authority records", breaks="authority records after the count modulo 256 are read as additional records or left unread",
  edits=[("src/packet.rs", "for _ in 0..packet.header.auth_count {", "for _ in 0..packet.header.auth_count as u8 {")],
  demo=H % ('''    for n in [0usize, 1, 255, 256, 300] {
        let mut p = Packet::new_reply(7);
        for _ in 0..n {
            p.add_authority(%s);
        }
        let b = p.to_bytes();
        let q = Packet::try_from(b.as_slice()).unwrap();
        assert_eq!(q.authorities().len(), n);
        assert_eq!(q.additionals().len(), 0);
    }
''' % rr("a.example", "A", "A::from(1u32)"))),
 dict(id="rr-window-trust-parser", property="P07", needs="record data that is longer than its parser needs (an A record with six bytes of data) followed by another record", breaks="the next record is read from inside the data of the one before",
  edits=[("src/resource.rs", "        buffer.advance(data_len as usize)?;\n", "        let consumed = data_len as usize - rdata_buffer.remaining();\n        buffer.advance(consumed)?;\n")],
  demo=H % '''    let mut b = vec![1, b'a', 0, 0, 1, 0, 1, 0, 0, 0, 60, 0, 6, 1, 2, 3, 4, 9, 9];
    let n = b.len();
    b.extend_from_slice(&[7, 7]);
    let mut buf = DnsBuffer::from(b.as_slice());
    let _ = ResourceRecord::try_from(&mut buf).unwrap();
    assert_eq!(buf.position(), n);
'''),
 dict(id="minfo-offset", property="P08", needs="a compressed message with a MINFO record whose first mailbox name is new, followed by a name that shares a suffix first seen in the second mailbox name", breaks="a later pointer leads to the wrong place",
  edits=[("src/rdata/minfo.rs", "                .to_bytes_compressed(names, offset + buffer.len()),", "                .to_bytes_compressed(names, offset),")],
  demo=H % ('''    let mut p = Packet::new_reply(7);
    p.add_answer(ResourceRecord::new(FQDN::new("x.example"), RecordType::MINFO, RecordClass::IN, 5, RecordData::MINFO(Minfo { rmailbx: FQDN::new("abc.org"), emailbx: FQDN::new("mail.net") })));
    p.add_answer(ResourceRecord::new(FQDN::new("mail.net"), RecordType::A, RecordClass::IN, 5, RecordData::A(A::from(1u32))));
    let b = p.to_bytes_compressed();
    let q = Packet::try_from(b.as_slice()).unwrap();
    assert_eq!(q.answers(), p.answers());
''')),
 dict(id="tsig-badtrunc", property="P09", needs="a TSIG record with the error BADTRUNC", breaks="BADTRUNC is written and read as 23 instead of the assigned 22",
  edits=[("src/rdata/tsig.rs", "            22 => Ok(Self::BadTrunc),", "            23 => Ok(Self::BadTrunc),"), ("src/rdata/tsig.rs", "            Error::BadTrunc => 22,", "            Error::BadTrunc => 23,")],
  demo=H % '''    let n: u16 = tsig::Error::BadTrunc.into();
    assert_eq!(n, 22);
'''),
 dict(id="cdnskey-as-dnskey", property="P10", needs="a CDNSKEY record", breaks="the data of a CDNSKEY record is taken for DNSKEY data",
  edits=[("src/rdata/mod.rs", "RecordType::CDNSKEY => Self::CDNSKEY(DnsKey::try_from(buffer)?),", "RecordType::CDNSKEY => Self::DNSKEY(DnsKey::try_from(buffer)?),")],
  demo=H % '''    let b = [1u8, 0, 3, 8, 1, 2, 3, 4];
    let d = RecordData::from(RecordType::CDNSKEY, &mut DnsBuffer::from(&b[..])).unwrap();
    assert!(matches!(d, RecordData::CDNSKEY(_)));
'''),
 dict(id="flush-needs-in", property="P11", needs="a record of a class other than IN with the cache flush mark", breaks="the cache flush mark is not written for classes other than IN",
  edits=[("src/resource.rs", "            let fused_last_byte = if self.cache_flush {\n                const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;\n                Into::<u16>::into(self.a_class) | MDNS_ENABLE_CACHE_FLUSH\n            } else {\n                Into::<u16>::into(self.a_class)\n            };\n            buffer.extend_from_slice(&u16::to_be_bytes(fused_last_byte));\n        }\n\n        buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));\n\n        let rdata = self.rdata.to_bytes();", "            let fused_last_byte = if self.cache_flush && self.a_class == RecordClass::IN {\n                const MDNS_ENABLE_CACHE_FLUSH: u16 = 1 << 15;\n                Into::<u16>::into(self.a_class) | MDNS_ENABLE_CACHE_FLUSH\n            } else {\n                Into::<u16>::into(self.a_class)\n            };\n            buffer.extend_from_slice(&u16::to_be_bytes(fused_last_byte));\n        }\n\n        buffer.extend_from_slice(&u32::to_be_bytes(self.time_to_live));\n\n        let rdata = self.rdata.to_bytes();")],
  demo=H % '''    for c in [RecordClass::IN, RecordClass::CH, RecordClass::HS] {
        let mut r = ResourceRecord::new(FQDN::new("a"), RecordType::A, c, 1, RecordData::A(A::from(1u32)));
        r.set_cache_flush(true);
        assert_eq!(r.to_bytes()[5] & 0x80, 0x80);
    }
'''),
 dict(id="string-127", property="P13", needs="a character string of 192 bytes or more", breaks="the upper bits of the length of a character string are ignored",
  edits=[("src/buffer.rs", "        let len = self.extract_u8()? as usize;\n        let mut data", "        let len = self.extract_u8()? as usize;\n        let len = if len & 0xC0 == 0xC0 { len & 0x3F } else { len };\n        let mut data")],
  demo=H % '''    for n in [0usize, 5, 63, 64, 191, 192, 255] {
        let mut b = vec![n as u8];
        b.extend(vec![7u8; n]);
        let mut buf = DnsBuffer::from(b.as_slice());
        assert_eq!(buf.extract_character_string().unwrap().len(), n);
        assert_eq!(buf.remaining(), 0);
    }
'''),
 dict(id="fqdn-second-pointer", property="P14", needs="a name that ends in a pointer to a name that itself ends in a pointer", breaks="reading goes on after the inner pointer instead of after the name",
  edits=[("src/buffer.rs", "                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);\n                }\n", "                if org_pos.is_none() || target == 0 {\n                    org_pos = Some(self.pos + 1);\n                }\n")],
  demo=H % '''    let b = [3u8, b'c', b'o', b'm', 0, 1, b'a', 0xC0, 0, 1, b'b', 0xC0, 5, 77];
    let mut buf = DnsBuffer::from(&b[..]);
    buf.set_position(9).unwrap();
    assert_eq!(buf.extract_fqdn().unwrap(), FQDN::new("b.a.com"));
    assert_eq!(buf.extract_u8().unwrap(), 77);
'''),
 dict(id="minfo-order", property="P15", needs="a MINFO record with two different mailboxes exchanged with another implementation", breaks="the two mailbox names are written and read in the wrong order",
  edits=[("src/rdata/minfo.rs", "            rmailbx: buffer.extract_fqdn()?,\n            emailbx: buffer.extract_fqdn()?,\n", "            emailbx: buffer.extract_fqdn()?,\n            rmailbx: buffer.extract_fqdn()?,\n"),
         ("src/rdata/minfo.rs", "        buffer.append(&mut self.rmailbx.to_bytes());\n        buffer.append(&mut self.emailbx.to_bytes());\n", "        buffer.append(&mut self.emailbx.to_bytes());\n        buffer.append(&mut self.rmailbx.to_bytes());\n")],
  demo=H % '''    let m = Minfo { rmailbx: FQDN::new("a"), emailbx: FQDN::new("b") };
    assert_eq!(m.to_bytes(), vec![1, b'a', 0, 1, b'b', 0]);
'''),
 dict(id="rrset-by-length", property="P21", needs="a record set whose records have data of different lengths", breaks="the canonical form orders records by length first",
  edits=[("src/resource_record_set.rs", "                .binary_search(&bin)\n", "                .binary_search_by(|probe: &Vec<u8>| (probe.len(), probe).cmp(&(bin.len(), &bin)))\n")],
  demo=H % '''    let n = FQDN::new("example");
    let x = RecordData::TXT(Txt::new(vec!["b".into()]));
    let y = RecordData::TXT(Txt::new(vec!["a".into(), "a".into()]));
    let z = RecordData::NULL(Null::try_from(&mut DnsBuffer::from(&[2u8, 1][..])).unwrap());
    let w = RecordData::NULL(Null::try_from(&mut DnsBuffer::from(&[1u8, 9, 9][..])).unwrap());
    let _ = (x, y);
    let s = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 1, vec![&z, &w]);
    let b = s.to_bytes();
    let at = n.to_bytes().len() + 10;
    assert_eq!(b[at], 1);
'''),
 dict(id="rrsig-compressed", property="P23", needs="a compressed message in which the signer's name of an RRSIG record occurred before", breaks="the signer's name is compressed",
  edits=[("src/rdata/mod.rs", "            Self::RRSIG(rrsig) => rrsig.to_bytes(),", "            Self::RRSIG(rrsig) => {\n                let plain = rrsig.to_bytes();\n                let mut bin = plain[..18].to_vec();\n                let name = FQDN::try_from(&mut DnsBuffer::from(&plain[18..])).unwrap_or_default();\n                bin.extend(name.to_bytes_compressed(names, offset + 18));\n                bin.extend_from_slice(&plain[18 + name.byte_size()..]);\n                bin\n            }")],
  demo=H % ''''''),
 dict(id="local-suffix", property="P24", needs="a name whose last label merely ends in local", breaks="names such as host.notlocal count as link local",
  edits=[("src/fqdn.rs", "            return tld == \"local\";", "            return tld.ends_with(\"local\");")],
  demo=H % '''    assert!(FQDN::new("a.local").is_link_local());
    assert!(!FQDN::new("a.notlocal").is_link_local());
    assert!(!FQDN::new("local.a").is_link_local());
'''),
 dict(id="question-eq-name-only", property="P25", needs="two questions that differ only in the unicast response mark", breaks="questions compare equal although one of them asks for a unicast response",
  edits=[("src/question.rs", "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Question {", "impl PartialEq for Question {\n    fn eq(&self, other: &Self) -> bool {\n        self.q_name == other.q_name\n            && self.q_type == other.q_type\n            && self.q_class == other.q_class\n    }\n}\n\nimpl Eq for Question {}\n\n#[derive(Clone, Debug)]\npub struct Question {")],
  demo=H % '''    let a = Question::new(FQDN::new("a"), QType::A, QClass::IN);
    let mut b = a.clone();
    assert!(a == b);
    b.set_unicast_response(true);
    assert!(a != b);
'''),
 dict(id="apl-family-error", property="P26", needs="an APL record with an address family above 255", breaks="the error carries only the low byte of the family",
  edits=[("src/rdata/apl.rs", "val => return Err(DnsError::InvalidAplFamily(val))", "val => return Err(DnsError::InvalidAplFamily(val & 0xFF))")],
  demo=H % '''    let b = [3u8, 7, 0, 0, 1, 2, 3, 4];
    match Apl::try_from(&mut DnsBuffer::from(&b[..])) {
        Err(DnsError::InvalidAplFamily(0x0307)) => {}
        x => panic!("{:?}", x),
    }
'''),
]
BUGS = [b for b in BUGS if b["id"] != "rrsig-compressed"]
