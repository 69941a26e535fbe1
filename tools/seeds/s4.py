H = "use maybe_dns::*;\nuse maybe_dns::rdata::*;\n#[allow(unused_imports)]\nuse std::convert::{TryFrom, TryInto};\nfn main() {\n%s}\n"
BUGS = [
 dict(id="csync-stale-window", property="P27", needs="a CSYNC record with types of both windows", breaks="bits of the first window are repeated in the second",
  edits=[("src/rdata/csync.rs", "                block_data.fill(0);\n", "                block_data[block_len as usize] = 0;\n")],
  demo=H % '''    let mut c = Csync::default();
    c.types = std::collections::BTreeSet::from([RecordType::NS, RecordType::AAAA, RecordType::CAA]);
    assert_eq!(&c.to_bytes()[6..], &[0, 4, 32, 0, 0, 8, 1, 1, 64]);
'''),
 dict(id="nsec-last-octet", property="P27", needs="an NSEC record that lists a type in the last octet of a window (TKEY, TSIG)", breaks="the type is dropped when the record is read",
  edits=[("src/rdata/dnssec.rs", "            for (index, octet) in bitmap.iter().enumerate() {", "            for (index, octet) in bitmap.iter().enumerate().take(31) {")],
  demo=H % '''    let t = std::collections::BTreeSet::from([RecordType::A, RecordType::TSIG]);
    let b = Nsec::with_types(FQDN::new("a.example"), t.clone()).to_bytes();
    assert_eq!(Nsec::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap().types, t);
'''),
]
