H = "use maybe_dns::*;\n#[allow(unused_imports)]\nuse maybe_dns::rdata::*;\n#[allow(unused_imports)]\nuse std::convert::{TryFrom, TryInto};\nfn main() {\n%s}\n"
BUGS = [
 dict(id="opcode-reinterpreted", property="P28", needs="a header with an operation code from 4 to 7 or from 12 to 15", breaks="the number is reinterpreted as an enum value that does not exist",
  edits=[("src/header.rs", "            _ => OpCode::Reserved,\n        }\n    }\n}\n\n/// Set for dns response", "            3 => OpCode::Reserved,\n            // SAFETY: three bits are left\n            _ => unsafe { transmute::<u8, OpCode>(code & 0b0111) },\n        }\n    }\n}\n\n/// Set for dns response")],
  demo=H % '''    for k in 3u8..16 {
        let b = [0, 1, k << 3, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let p = Packet::try_from(&b[..]).unwrap();
        assert!(p.header().opcode() == OpCode::Reserved);
    }
'''),
 dict(id="string-unchecked", property="P28", needs="text that is not UTF-8 and longer than 127 bytes", breaks="a String that is not UTF-8 is made without a check",
  edits=[("src/buffer.rs", "        let string = String::from_utf8(self.extract_character_string()?)\n            .map_err(|_| DnsError::LengthViolation)?;\n        Ok(string)", "        let bytes = self.extract_character_string()?;\n        let probe = &bytes[..bytes.len().min(127)];\n        if std::str::from_utf8(probe).is_err() {\n            return Err(DnsError::LengthViolation);\n        }\n        // SAFETY: checked above\n        Ok(unsafe { String::from_utf8_unchecked(bytes) })")],
  demo=H % '''    let mut b = vec![200u8];
    b.extend(std::iter::repeat(b'a').take(199));
    b.push(0xff);
    assert!(DnsBuffer::from(b.as_slice()).extract_string().is_err());
'''),
 dict(id="svcb-key-order", property="P15", needs="an SVCB record with a private key whose low octet is below another key", breaks="parameters are written in an order receivers have to reject",
  edits=[("src/rdata/svcb.rs", "        u16::from(*self).cmp(&u16::from(*other))", "        (u16::from(*self) as u8).cmp(&(u16::from(*other) as u8))")],
  demo=H % '''    let b = [0u8, 1, 0, 0, 3, 0, 2, 1, 187, 0xff, 0x01, 0, 1, 7];
    let v = Svcb::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(v.to_bytes(), b);
'''),
 dict(id="naptr-size-chars", property="P03", needs="a NAPTR record whose expression is not plain ASCII", breaks="the announced size counts characters, not bytes",
  edits=[("src/rdata/naptr.rs", "            + self.regexp.len()\n            + self.replacement.byte_size()", "            + self.regexp.chars().count()\n            + self.replacement.byte_size()")],
  demo=H % '''    let n = Naptr::new(1, 2, vec![], vec![1], "!^.*$!sip:\\u{e9}!".to_string(), FQDN::new("a.example"));
    assert_eq!(n.byte_size(), n.to_bytes().len());
'''),
 dict(id="svcb-last-private", property="P09", needs="an SVCB record with the last private key, 65534", breaks="the key is rejected",
  edits=[("src/rdata/svcb.rs", "            65280..=65534 => Ok(Self::Private(value)),", "            65280..=65533 => Ok(Self::Private(value)),")],
  demo=H % '''    for k in [0xff00u16, 0xfffd, 0xfffe] {
        let b = [0u8, 1, 0, (k >> 8) as u8, k as u8, 0, 1, 7];
        assert_eq!(Svcb::try_from(&mut DnsBuffer::from(&b[..])).unwrap().to_bytes(), b);
    }
'''),
]
