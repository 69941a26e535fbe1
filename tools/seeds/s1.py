BUGS = [
 dict(id="hip-long-key", property="P04", needs="a HIP record whose public key is 256 bytes or longer", breaks="the public key is cut to its length modulo 256 when read back and the rest is parsed as rendezvous server names",
  edits=[("src/rdata/hip.rs", "buffer.extract_bytes(pk_len as usize)?.to_vec();", "buffer.extract_bytes((pk_len & 0xFF) as usize)?.to_vec();")],
  demo='''use maybe_dns::{rdata::*, Algorithm, ByteConvertible, DnsBuffer};
use std::convert::TryFrom;
fn main() {
    for n in [0usize, 1, 255, 256, 300, 513, 1024] {
        let v = Hip { public_key_algorithm: Algorithm::RSA, hit: vec![7; 16], public_key: vec![0; n], rendevous_server: None };
        let b = v.to_bytes();
        let r = Hip::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
        assert_eq!(r, v);
    }
}
'''),
 dict(id="ipseckey-no-gateway-no-key", property="P04", needs="an IPSECKEY record without gateway and with an empty public key", breaks="the placeholder byte of the absent gateway is read as the public key",
  edits=[("src/rdata/ipseckey.rs", "                buffer.extract_u8()?;\n                Gateway::None", "                if buffer.remaining() > 1 {\n                    buffer.extract_u8()?;\n                }\n                Gateway::None")],
  demo='''use maybe_dns::{rdata::*, rdata::ipseckey::Gateway, Algorithm, ByteConvertible, DnsBuffer};
use std::convert::TryFrom;
fn main() {
    for n in [0usize, 1, 2, 40] {
        let v = IpSecKey { precedence: 3, algorithm: Algorithm::RSA, gateway: Gateway::None, public_key: vec![9; n] };
        let b = v.to_bytes();
        let r = IpSecKey::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
        assert_eq!(r, v);
    }
}
'''),
 dict(id="hip-size-first-server", property="P03", needs="a HIP record with at least two rendezvous servers", breaks="the announced size counts only the first rendezvous server",
  edits=[("src/rdata/hip.rs", ".map(|b| -> usize { b.iter().map(|fqdn| fqdn.byte_size()).sum() })", ".and_then(|b| b.first().map(|fqdn| fqdn.byte_size()))")],
  demo='''use maybe_dns::{rdata::*, Algorithm, ByteConvertible, FQDN};
fn main() {
    for n in 0..4 {
        let s = if n == 0 { None } else { Some((0..n).map(|i| FQDN::new(&format!("rvs{}.example.com", i))).collect()) };
        let v = Hip { public_key_algorithm: Algorithm::RSA, hit: vec![7; 16], public_key: vec![0; 20], rendevous_server: s };
        assert_eq!(v.byte_size(), v.to_bytes().len());
    }
}
'''),
]
