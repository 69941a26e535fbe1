R = "src/rdata/"
USE = "use crate::byteconvertible::ByteConvertible;\n"
USE2 = "use crate::byteconvertible::{ByteConvertible, CompressedByteConvertible};\n"
M = R + "mod.rs"
SRC = open("/repo/src/rdata/mod.rs").read()
CT = CS = CH = SRC[SRC.index("    fn to_bytes_compressed("):]
IMPL = """impl CompressedByteConvertible for %s {
    fn to_bytes_compressed(&self, names: &mut std::collections::HashMap<u64, usize>, offset: usize) -> Vec<u8> {
        let mut buf = Vec::new();
%s
        buf
    }
}

#[cfg(test)]
mod tests {"""
TKB = """        buf.extend(self.algorithm.to_bytes_compressed(names, offset));
        buf.extend(u32::to_be_bytes(self.inception));
        buf.extend(u32::to_be_bytes(self.expiration));
        buf.extend(u16::to_be_bytes(self.mode.into()));
        buf.extend(u16::to_be_bytes(self.error.into()));
        buf.extend(u16::to_be_bytes(self.key_data.len() as u16));
        buf.extend_from_slice(&self.key_data);
        buf.extend(u16::to_be_bytes(self.other_data.len() as u16));
        buf.extend_from_slice(&self.other_data);"""
SVB = """        buf.extend(u16::to_be_bytes(self.priority));
        buf.extend(self.target_name.to_bytes_compressed(names, offset + 2));
        for param in self.params.iter() {
            buf.extend(param.to_bytes());
        }"""
HIB = """        buf.push(self.hit.len() as u8);
        buf.push(self.public_key_algorithm.into());
        buf.extend(u16::to_be_bytes(self.public_key.len() as u16));
        buf.extend(&self.hit);
        buf.extend(&self.public_key);
        if let Some(rs) = &self.rendevous_server {
            for name in rs {
                buf.extend(name.to_bytes_compressed(names, offset + buf.len()));
            }
        }"""
MUTS = [
    ("z-tkey", [R + "tkey.rs", R + "tkey.rs", M], [USE, "#[cfg(test)]\nmod tests {", CT], [USE2, IMPL % ("Tkey", TKB), CT.replace("tkey.to_bytes()", "tkey.to_bytes_compressed(names, outer_off)")], "P23"),
    ("z-svcb", [R + "svcb.rs", R + "svcb.rs", M], [USE, "#[cfg(test)]\nmod tests {", CS], [USE2, IMPL % ("Svcb", SVB), CS.replace("svcb.to_bytes()", "svcb.to_bytes_compressed(names, outer_off)")], "P23"),
    ("z-hip", [R + "hip.rs", R + "hip.rs", M], [USE, "#[cfg(test)]\nmod tests {", CH], [USE2, IMPL % ("Hip", HIB), CH.replace("hip.to_bytes()", "hip.to_bytes_compressed(names, outer_off)")], "P23"),
    ("z-tkey-plain", [R + "tkey.rs", R + "tkey.rs", M], [USE, "#[cfg(test)]\nmod tests {", CT], [USE2, IMPL % ("Tkey", TKB.replace("to_bytes_compressed(names, offset)", "to_bytes()") + "\n        let _ = (names, offset);"), CT.replace("tkey.to_bytes()", "tkey.to_bytes_compressed(names, outer_off)")], ""),
    ("z-helper", M, CT, CT.replace("tsig.to_bytes()", "{\n                let mut out = Vec::with_capacity(tsig.byte_size());\n                out.extend(tsig.to_bytes());\n                out\n            }"), ""),
]
