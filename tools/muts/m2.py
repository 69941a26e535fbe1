H = "src/header.rs"
P = "src/packet.rs"
Q = "src/question.rs"
RR = "src/resource.rs"
MUTS = [
    ("h-tc-aa", H, "self.flags.set_tc(unsafe { transmute(tc) });", "self.flags.set_tc(unsafe { transmute(tc) });\n        if !tc { self.flags.set_aa(0); }", "P12"),
    ("h-rcode-qr", H, "if response_code != ResponseCode::NoError {", "if response_code != ResponseCode::NoError && response_code != ResponseCode::NotZone {", "P12"),
    ("h-qr-ra", H, "            self.flags.set_ra(0);\n", "", "P12"),
    ("h-opcode-keep", H, "self.flags.set_opcode(unsafe { transmute(opcode) });", "let old = self.flags.opcode();\n        self.flags.set_opcode(if opcode == OpCode::Reserved { old | 3 } else { opcode as u8 });", "P12"),
    ("p-tc", P, "self.header.truncation()", "self.header.truncation() && !self.answers.is_empty()", "P12"),
    ("p-reply-id", P, "Header::new_reply(id, OpCode::StandardQuery)", "Header::new_reply(id & 0x7fff, OpCode::StandardQuery)", "P12"),
    ("h-newquery-rd", H, ".with_opcode(OpCode::StandardQuery as u8)\n            .with_rd(recursion_desired as u8);", ".with_opcode(recursion_desired as u8)\n            .with_rd(recursion_desired as u8);", "P12"),
    ("rr-flush-in", RR, "            let fused_last_byte: u16 = if self.cache_flush {", "            let fused_last_byte: u16 = if self.cache_flush && self.a_class != RecordClass::HS {", "P11"),
    ("rr-read-gt", RR, "if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {", "if bin_val > MDNS_ENABLE_CACHE_FLUSH {", "P11"),
    ("rr-setclass", RR, "        self.a_class = class;\n", "        self.a_class = class;\n        #[cfg(feature = \"mdns\")]\n        {\n            self.cache_flush = self.cache_flush && class != RecordClass::CH;\n        }\n", "P11"),
    ("q-any-unicast", Q, "            let fused_last_byte = if self.unicast_response {\n                const MDNS_UNICAST_RESPONSE: u16 = 1 << 15;\n                self.q_class as u16 | MDNS_UNICAST_RESPONSE\n            } else {\n                self.q_class as u16\n            };\n\n", "            let fused_last_byte = if self.unicast_response && self.q_class != QClass::ANY {\n                const MDNS_UNICAST_RESPONSE: u16 = 1 << 15;\n                self.q_class as u16 | MDNS_UNICAST_RESPONSE\n            } else {\n                self.q_class as u16\n            };\n\n", "P11"),
    # refactorings
    ("R-h-as", H, ["self.flags.set_tc(unsafe { transmute(tc) });", "self.flags.set_rd(unsafe { transmute(rd) });", "self.flags.rd() != 0"], ["self.flags.set_tc(tc as u8);", "self.flags.set_rd(u8::from(rd));", "self.flags.rd() == 1"], ""),
    ("R-h-rcode", H, ["self.flags.set_rcode(unsafe { transmute(response_code) });\n\n        // Only set by a server\n        if response_code != ResponseCode::NoError {\n            self.flags.set_qr(1);\n        }"], ["let code = response_code as u8;\n        self.flags.set_rcode(code);\n        match response_code {\n            ResponseCode::NoError => (),\n            _ => self.flags.set_qr(1),\n        }"], ""),
    ("R-q-shift", Q, ["            let fused_last_byte = if self.unicast_response {\n                const MDNS_UNICAST_RESPONSE: u16 = 1 << 15;\n                self.q_class as u16 | MDNS_UNICAST_RESPONSE\n            } else {\n                self.q_class as u16\n            };\n\n"], ["            let fused_last_byte = (self.q_class as u16) | ((self.unicast_response as u16) << 15);\n"], ""),
    ("R-rr-read", RR, ["            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {\n                let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;\n                (RecordClass::from(class_val), true)\n            } else {\n                (RecordClass::from(bin_val), false)\n            }"], ["            let flush = bin_val & MDNS_ENABLE_CACHE_FLUSH != 0;\n            (RecordClass::from(bin_val & 0x7fff), flush)"], ""),
]
