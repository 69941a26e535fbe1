Q, R, P = "src/question.rs", "src/resource.rs", "src/packet.rs"
CS, SV, AA, DK = "src/rdata/csync.rs", "src/rdata/svcb.rs", "src/rdata/a.rs", "src/rdata/dnssec.rs"
RRD = "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct ResourceRecord {"
def rr_eq(expr):
    return "impl PartialEq for ResourceRecord {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\nimpl Eq for ResourceRecord {}\n#[derive(Clone, Debug)]\npub struct ResourceRecord {" % expr
ALL = "self.a_name == other.a_name && self.a_type == other.a_type && self.a_class == other.a_class && self.time_to_live == other.time_to_live && self.rdata == other.rdata"
CF = "\n        #[cfg(feature = \"mdns\")]\n        if self.cache_flush != other.cache_flush {\n            return false;\n        }\n        "
QD = "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Question {"
FD = "#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]\npub struct FQDN {"
def fq(expr):
    return "impl PartialEq for FQDN {\n    fn eq(&self, other: &Self) -> bool {\n        %s\n    }\n}\nimpl Eq for FQDN {}\n#[derive(Clone, Debug, Default, PartialOrd, Ord)]\npub struct FQDN {" % expr
PD = "#[derive(Debug, PartialEq, Eq, Clone)]\npub enum Param {"
MUTS = [
    ("a-rr-eq-ttl", R, RRD, rr_eq(CF + ALL.replace(" && self.time_to_live == other.time_to_live", "")), "P25"),
    ("a-rr-eq-flush", R, RRD, rr_eq(ALL), "P25"),
    ("a-rr-eq-class", R, RRD, rr_eq(CF + ALL.replace("self.a_class == other.a_class", "u16::from(self.a_class) & 1 == u16::from(other.a_class) & 1")), "P25"),
    ("a-rr-eq-ok", R, RRD, rr_eq(CF + ALL), ""),
    ("a-rr-eq-tuple", R, RRD, rr_eq(CF + "(&self.a_name, self.a_type, self.a_class, self.time_to_live, &self.rdata) == (&other.a_name, other.a_type, other.a_class, other.time_to_live, &other.rdata)"), ""),
    ("a-fq-eq-case", "src/fqdn.rs", FD, fq("self.data.len() == other.data.len() && self.data.iter().zip(other.data.iter()).all(|(a, b)| a.eq_ignore_ascii_case(b))"), "P25"),
    ("a-fq-eq-zip", "src/fqdn.rs", FD, fq("self.data.iter().zip(other.data.iter()).all(|(a, b)| a == b)"), "P25"),
    ("a-fq-eq-lens", "src/fqdn.rs", FD, fq("self.data.len() == other.data.len() && self.data.iter().zip(other.data.iter()).all(|(a, b)| a.len() == b.len())"), "P25"),
    ("a-fq-eq-ok", "src/fqdn.rs", FD, fq("self.data.len() == other.data.len() && self.data.iter().zip(other.data.iter()).all(|(a, b)| a == b)"), ""),
    ("a-rr-setttl", R, "        self.time_to_live = ttl;\n", "        self.time_to_live = ttl & 0x7FFF_FFFF;\n", "P25"),
    ("a-rr-settype", R, "        self.a_type = record_type;\n", "        self.a_type = record_type;\n        self.time_to_live = self.time_to_live.min(86400);\n", "P25"),
    ("a-rr-setdata", R, "        self.rdata = data;\n", "        self.rdata = data;\n        if self.a_type == RecordType::OPT {\n            self.time_to_live = 0;\n        }\n", "P25"),
    ("a-rr-setdata2", R, "        self.rdata = data;\n", "        if self.time_to_live != 0 {\n            self.rdata = data;\n        }\n", "P25"),
    ("a-rr-new-ttl", R, "            time_to_live: ttl,\n            rdata,\n        }\n    }\n\n    pub fn name", "            time_to_live: if ttl > i32::MAX as u32 { 0 } else { ttl },\n            rdata,\n        }\n    }\n\n    pub fn name", "P25"),
    ("a-rr-setflush", R, "        self.cache_flush = flush;\n", "        self.cache_flush |= flush;\n", "P25"),
    ("a-rr-raw", R, "        self.rdata.to_bytes()\n    }\n}\n", "        let mut b = self.rdata.to_bytes();\n        b.truncate(u16::MAX as usize);\n        b\n    }\n}\n", "P25"),
    ("a-q-setclass", Q, "        self.q_class = class;\n", "        self.q_class = class;\n        #[cfg(feature = \"mdns\")]\n        {\n            self.unicast_response = false;\n        }\n", "P25"),
    ("a-q-setname", Q, "        self.q_name = name;\n", "        if !name.is_empty() {\n            self.q_name = name;\n        }\n", "P25"),
    ("a-q-eq", Q, QD, "impl PartialEq for Question {\n    fn eq(&self, other: &Self) -> bool {\n        self.q_name == other.q_name && self.q_type == other.q_type && self.q_class == other.q_class\n    }\n}\nimpl Eq for Question {}\n#[derive(Clone, Debug)]\npub struct Question {", "P25"),
    ("a-cs-set", CS, "            self.0 &= !2;\n", "            self.0 &= !3;\n", "P25"),
    ("a-cs-set2", CS, "            self.0 |= 2;\n", "            self.0 = 2;\n", "P25"),
    ("a-cs-get", CS, "        (self.0 & 2) != 0\n", "        self.0 >= 2\n", ""),
    ("a-cs-get2", CS, "        (self.0 & 1) != 0\n", "        self.0 == 1\n", "P25"),
    ("a-sv-mode", SV, "        if self.priority == 0 {\n            Mode::Alias\n", "        if self.priority == 0 || self.params.is_empty() {\n            Mode::Alias\n", "P25"),
    ("a-sv-mode-ok", SV, "        if self.priority == 0 {\n            Mode::Alias\n        } else {\n            Mode::Service\n        }\n", "        match self.priority {\n            0 => Mode::Alias,\n            1.. => Mode::Service,\n        }\n", ""),
    ("a-a-from", AA, "        Self(Ipv4Addr::from(value))\n", "        Self(Ipv4Addr::from(value.to_le_bytes()))\n", "P25"),
    ("a-a-from-ok", AA, "        Self(Ipv4Addr::from(value))\n", "        Self(Ipv4Addr::from(value.to_be_bytes()))\n", ""),
    ("a-dk-proto", DK, "        self.protocol == 3\n", "        self.protocol >= 3\n", "P25"),
    ("a-pk-addq", P, "        self.questions = questions;\n", "        self.questions = questions;\n        self.questions.truncate(1);\n", "P25,P06"),
    ("a-pk-setid", P, "        self.header.id = id;\n", "        self.header.id = id | 0;\n        if id == 0 {\n            self.answers.clear();\n        }\n", "P25"),
    ("a-rs-new", "src/resource_record_set.rs", "            ttl,\n            records,\n", "            ttl: ttl.min(604800),\n            records,\n", "P25"),
    ("a-rs-rec", "src/resource_record_set.rs", "            ttl,\n            records,\n", "            ttl,\n            records: records.into_iter().take(128).collect(),\n", "P25"),
    ("a-rr-set-ok", R, "        self.time_to_live = ttl;\n", "        let _old = std::mem::replace(&mut self.time_to_live, ttl);\n", ""),
    ("a-rr-set-ok2", R, "        self.rdata = data;\n", "        let slot = self.data_mut();\n        *slot = data;\n", ""),
]
