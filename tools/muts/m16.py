H = "src/header.rs"
B = "src/buffer.rs"
REJ = "        // Reject unknown response codes here because `response_code` relies on a known value\n        ResponseCode::try_from(flags.rcode())?;\n"
RC = "        ResponseCode::try_from(self.flags.rcode()).unwrap()"
OP = "        OpCode::from(self.flags.opcode())"
IDX = "        Ok(&self.data[self.pos..self.pos + len])"
MUTS = [
    ("u-opcode", H, OP, "        // SAFETY: the bitfield holds an opcode\n        unsafe { transmute(self.flags.opcode() & 0x7) }", "P28"),
    ("u-opcode-min-ok", H, OP, "        // SAFETY: the last variant is the largest\n        unsafe { transmute(self.flags.opcode().min(OpCode::Reserved as u8)) }", ""),
    ("u-rcode", H, [REJ, RC], ["", "        // SAFETY: the bitfield holds a response code\n        unsafe { transmute(self.flags.rcode()) }"], "P28"),
    ("u-rcode-checked", H, RC, "        let code = self.flags.rcode();\n        if code > ResponseCode::NotZone as u8 {\n            return ResponseCode::NotZone;\n        }\n        // SAFETY: checked above\n        unsafe { transmute(code) }", ""),
    ("u-rcode-try", H, "            9 => Ok(ResponseCode::NotAuth),\n            10 => Ok(ResponseCode::NotZone),", "            // SAFETY: the rest of the codes\n            9..=11 => Ok(unsafe { transmute::<u8, ResponseCode>(code) }),", "P28"),
    ("u-rcode-try-ok", H, "            9 => Ok(ResponseCode::NotAuth),\n            10 => Ok(ResponseCode::NotZone),", "            // SAFETY: the rest of the codes\n            9..=10 => Ok(unsafe { transmute::<u8, ResponseCode>(code) }),", ""),
    ("u-bool", H, "        self.flags.rd() != 0", "        unsafe { transmute::<u8, bool>(self.flags.clone().into_bytes()[0] & 0x81) }", "P28"),
    ("u-bool-ok", H, "        self.flags.rd() != 0", "        unsafe { transmute::<u8, bool>(self.flags.rd()) }", ""),
    ("u-str", B, "        let string = String::from_utf8(self.extract_character_string()?)\n            .map_err(|_| DnsError::LengthViolation)?;", "        // SAFETY: character strings are ascii\n        let string = unsafe { String::from_utf8_unchecked(self.extract_character_string()?) };", "P28"),
    ("u-str-ok", B, "        let string = String::from_utf8(self.extract_character_string()?)\n            .map_err(|_| DnsError::LengthViolation)?;", "        let data = self.extract_character_string()?;\n        if std::str::from_utf8(&data).is_err() {\n            return Err(DnsError::LengthViolation);\n        }\n        // SAFETY: checked above\n        let string = unsafe { String::from_utf8_unchecked(data) };", ""),
    ("u-disp", "src/fqdn.rs", "String::from_utf8_lossy(name_part)", "unsafe { std::str::from_utf8_unchecked(name_part) }", "P28"),
    ("u-idx", B, "        if len > self.remaining() {\n            return Err(DnsError::LengthViolation);\n        }\n" + IDX, "        if len >= self.data.len() {\n            return Err(DnsError::LengthViolation);\n        }\n        // SAFETY: checked above\n        Ok(unsafe { self.data.get_unchecked(self.pos..self.pos + len) })", "P28"),
    ("u-idx-ok", B, IDX, "        // SAFETY: checked above\n        Ok(unsafe { self.data.get_unchecked(self.pos..self.pos + len) })", ""),
    ("u-len", B, "            let len = self.peek_bytes(1)?[0];", "            // SAFETY: names end with a zero byte\n            let len = unsafe { *self.data.get_unchecked(self.pos) };", "P28"),
    ("u-setlen", B, "        let mut data = Vec::with_capacity(len);\n        data.extend_from_slice(self.extract_bytes(len)?);", "        let mut data: Vec<u8> = Vec::with_capacity(len);\n        // SAFETY: filled right below\n        unsafe { data.set_len(len) };\n        data.copy_from_slice(self.extract_bytes(len)?);", "P28"),
    ("u-rcode-keep", H, RC, "        // SAFETY: unknown codes are rejected by the parser\n        unsafe { transmute(self.flags.rcode()) }", ""),
    ("u-apl", "src/rdata/apl.rs", "            val => return Err(DnsError::InvalidAplFamily(val)),", "            0 | 3..=u16::MAX => return Err(DnsError::InvalidAplFamily(family)),", ""),
    ("u-apl2", "src/rdata/apl.rs", "            val => return Err(DnsError::InvalidAplFamily(val)),", "            val if val > 2 => return Err(DnsError::InvalidAplFamily(val)),\n            // SAFETY: families are 1 and 2\n            _ => unsafe { std::hint::unreachable_unchecked() },", "P28"),
    ("u-sub", B, "        self.data.len() - self.pos\n", "        // SAFETY: the position never lies behind the data\n        unsafe { self.data.len().unchecked_sub(self.pos) }\n", ""),
    ("u-hip", "src/rdata/apl.rs", "afd_bytes.try_into().expect(\"Resized to 16 bytes before\")", "unsafe { <[u8; 16]>::try_from(afd_bytes).unwrap_unchecked() }", ""),
]
