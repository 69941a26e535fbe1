H = "use maybe_dns::*;\nuse maybe_dns::rdata::*;\n#[allow(unused_imports)]\nuse std::convert::{TryFrom, TryInto};\nfn main() {\n%s}\n"
D = "src/rdata/dnssec.rs"
SIGN = '''use maybe_dns::*;
use maybe_dns::rdata::*;
use std::convert::{TryFrom, TryInto};
use std::time::{Duration, UNIX_EPOCH};
use ring::signature::KeyPair;
fn main() {
    let doc = ring::signature::Ed25519KeyPair::generate_pkcs8(&ring::rand::SystemRandom::new()).unwrap();
    let kp = ring::signature::Ed25519KeyPair::from_pkcs8(doc.as_ref()).unwrap();
    let key = DnsKey::new(15u8.try_into().unwrap(), kp.public_key().as_ref().to_vec());
    let name = FQDN::new("a.example");
    let d = RecordData::A(A::from(1u32));
    let set = ResourceRecordSet::new(&name, RecordType::A, RecordClass::IN, 60, vec![&d]);
'''
BUGS = [
 dict(id="tsig-time-five", property="P01", needs="a TSIG record whose time field is cut off after the first bytes", breaks="a truncated record makes the parser panic",
  edits=[("src/rdata/tsig.rs", "        time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);", "        let time_len = buffer.remaining().min(6);\n        time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(time_len)?);")],
  demo=H % '''    for n in 0..6usize {
        let mut b = vec![0u8];
        b.extend(vec![1u8; n]);
        assert!(Tsig::try_from(&mut DnsBuffer::from(b.as_slice())).is_err());
    }
'''),
 dict(id="opt-peek-length", property="P02", needs="OPT data that ends with one to three bytes after the last option", breaks="the parser never returns",
  edits=[("src/rdata/opt.rs", "        while buffer.remaining() > 0 {\n", "        while buffer.remaining() > 0 {\n            if buffer.remaining() < 4 {\n                // Padding after the last option\n                continue;\n            }\n")],
  demo=H % '''    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for n in 0..4usize {
            let mut b = vec![0u8, 1, 0, 1, 9];
            b.extend(vec![0u8; n]);
            let _ = Opt::try_from(&mut DnsBuffer::from(b.as_slice()));
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(5)).unwrap();
'''),
 dict(id="query-clears-opcode", property="P12", needs="turning a header with an operation code other than standard query into a query", breaks="the operation code is cleared together with the response-only fields",
  edits=[("src/header.rs", "        if !qr {\n            self.flags.set_ra(0);\n", "        if !qr {\n            self.flags.set_ra(0);\n            self.flags.set_opcode(self.flags.opcode() & 1);\n")],
  demo=H % '''    let mut p = Packet::new_reply(1);
    p.set_opcode(OpCode::ServerStatusRequest);
    p.set_query_response(false);
    assert_eq!(p.opcode(), OpCode::ServerStatusRequest);
'''),
 dict(id="verify-labels", property="P18", needs="a signature whose label count was altered", breaks="the label count of the signature is replaced by that of the record set, so that a forged label count verifies",
  edits=[(D, "        sig.push(self.labels);\n        sig.extend(u32::to_be_bytes(self.original_ttl));\n        sig.extend(u32::to_be_bytes(self.sig_expiration));", "        sig.push(rr_set.name().label_count());\n        sig.extend(u32::to_be_bytes(self.original_ttl));\n        sig.extend(u32::to_be_bytes(self.sig_expiration));")],
  deps='ring = "0.17.5"', demo=SIGN + '''    let t = UNIX_EPOCH + Duration::from_secs(1000);
    let sig = Rrsig::from_dnskey(&key, &set, &t, &(t + Duration::from_secs(60)), doc.as_ref()).unwrap();
    assert!(sig.verify(&key, &set).unwrap());
    let mut b = sig.to_bytes();
    b[3] = 1;
    let forged = Rrsig::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    assert!(!forged.verify(&key, &set).unwrap());
}
'''),
 dict(id="sign-times-swapped", property="P19", needs="inspecting the validity period of a freshly made signature", breaks="inception and expiration are exchanged in new signatures",
  edits=[(D, "            sig_expiration: expiration,\n            sig_inception: inception,\n", "            sig_expiration: inception.max(expiration),\n            sig_inception: expiration.max(inception),\n")],
  deps='ring = "0.17.5"', demo=SIGN + '''    let t = UNIX_EPOCH + Duration::from_secs(1000);
    for (i, e) in [(0u64, 60u64), (60, 0)] {
        let sig = Rrsig::from_dnskey(&key, &set, &(t + Duration::from_secs(i)), &(t + Duration::from_secs(e)), doc.as_ref()).unwrap();
        let b = sig.to_bytes();
        assert_eq!(u32::from_be_bytes(b[8..12].try_into().unwrap()) as u64, 1000 + e);
        assert_eq!(u32::from_be_bytes(b[12..16].try_into().unwrap()) as u64, 1000 + i);
        let _ = Rrsig::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    }
}
'''),
 dict(id="keytag-fold", property="P20", needs="a key whose tag sum carries twice", breaks="the key tag is wrong for keys whose 32-bit sum overflows 16 bits after folding",
  edits=[(D, "        key_tag += (key_tag >> 16) & 0xFFFF;\n        (key_tag & 0xFFFF) as u16", "        while key_tag > 0xFFFF {\n            key_tag = (key_tag & 0xFFFF) + (key_tag >> 16);\n        }\n        key_tag as u16")],
  demo=H % '''    let mut rng: u32 = 1;
    let name = FQDN::new("a");
    for _ in 0..200000 {
        let mut k = vec![];
        for _ in 0..6 {
            rng = rng.wrapping_mul(1664525).wrapping_add(1013904223);
            k.push(0xFFu8 - ((rng >> 28) as u8 & 1));
            rng = rng.wrapping_mul(1664525).wrapping_add(1013904223);
            k.push((rng >> 24) as u8);
        }
        let key = DnsKey::new(8u8.try_into().unwrap(), k);
        let ds = Ds::try_from_dnskey(&name, &key, 2u8.try_into().unwrap()).unwrap();
        let b = key.to_bytes();
        let mut ac: u32 = 0;
        for (i, x) in b.iter().enumerate() {
            ac += if i & 1 == 1 { *x as u32 } else { (*x as u32) << 8 };
        }
        ac += (ac >> 16) & 0xFFFF;
        assert_eq!(ds.key_tag, (ac & 0xFFFF) as u16);
    }
'''),
 dict(id="caa-default-tag", property="P22", needs="a CAA record whose value is missing", breaks="a CAA record that ends inside its tag is accepted with a shorter tag",
  edits=[("src/rdata/caa.rs", "        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len as usize)?).to_string();", "        let tag_len = buffer.remaining().min(tag_len as usize);\n        let tag = String::from_utf8_lossy(buffer.extract_bytes(tag_len)?).to_string();")],
  demo=H % '''    let b = [0u8, 5, b'i', b's', b's'];
    assert!(Caa::try_from(&mut DnsBuffer::from(&b[..])).is_err());
    let b = [0u8, 3, b'i', b's', b's'];
    assert!(Caa::try_from(&mut DnsBuffer::from(&b[..])).is_ok());
'''),
 dict(id="label-count-unwrap", property="P16", needs="a name of more than 255 labels", breaks="asking for the number of labels panics",
  edits=[("src/fqdn.rs", "        self.data.len() as u8", "        self.data.len().try_into().unwrap()")],
  demo=H % '''    let n = FQDN::from(vec![vec![b'a']; 300]);
    let _ = n.label_count();
'''),
 dict(id="sign-from-now", property="P17", needs="signing with the beginning of the epoch as inception", breaks="the signature depends on the time of the call",
  edits=[(D, "        let inception = inception\n            .duration_since(UNIX_EPOCH)", "        let inception = if *inception == UNIX_EPOCH {\n            SystemTime::now()\n        } else {\n            *inception\n        }\n            .duration_since(UNIX_EPOCH)")],
  deps='ring = "0.17.5"', demo=SIGN + '''    let t = UNIX_EPOCH;
    let sig = Rrsig::from_dnskey(&key, &set, &t, &(t + Duration::from_secs(60)), doc.as_ref()).unwrap();
    let b = sig.to_bytes();
    let _ = Rrsig::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    assert_eq!(&b[12..16], &[0u8; 4]);
}
'''),
 dict(id="rrsig-signer-compressed", property="P23", needs="a compressed message in which the signer's name of an RRSIG record occurred before", breaks="the signer's name inside RRSIG data is compressed",
  edits=[("src/rdata/mod.rs", "            Self::RRSIG(ref rrsig) => rrsig.to_bytes(),\n            #[cfg(feature = \"dnssec\")]\n            Self::NSEC(ref nsec) => nsec.to_bytes_compressed", """            Self::RRSIG(ref rrsig) => {
                let bin = rrsig.to_bytes();
                let mut rest = DnsBuffer::from(&bin[18..]);
                match rest.extract_fqdn() {
                    Ok(signer) => {
                        let mut out = bin[..18].to_vec();
                        out.extend(signer.to_bytes_compressed(names, outer_off + 18));
                        out.extend_from_slice(&bin[18 + rest.position()..]);
                        out
                    }
                    Err(_) => bin,
                }
            }
            #[cfg(feature = "dnssec")]
            Self::NSEC(ref nsec) => nsec.to_bytes_compressed""")],
  demo=H % '''    let name = FQDN::new("a.example");
    let mut p = Packet::new_reply(1);
    let sig = Rrsig::new(RecordType::A, 8u8.try_into().unwrap(), 2, 60, 2, 1, 77, name.clone(), vec![1; 64]);
    let full = sig.to_bytes();
    p.add_answer(ResourceRecord::new(name, RecordType::RRSIG, RecordClass::IN, 60, RecordData::RRSIG(sig)));
    let b = p.to_bytes_compressed();
    assert_eq!(&b[b.len() - full.len()..], &full[..]);
'''),
]
