F = "src/fqdn.rs"
MUTS = [
    ("ef-static", F, "    pub fn label_count(&self) -> u8 {\n", "    pub fn label_count(&self) -> u8 {\n        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n", "P17"),
    ("ef-static-mut", "src/header.rs", "    pub fn truncation(&self) -> bool {", "    pub fn truncation(&self) -> bool {\n        static mut LAST: u8 = 0;\n        unsafe { LAST = 1; }", "P17"),
    ("ef-tl", "src/util.rs", "    fqdn.hash(&mut hash);", "    thread_local! { static C: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }\n    C.with(|c| c.set(c.get() + 1));\n    fqdn.hash(&mut hash);", "P17"),
    ("ef-print", "src/buffer.rs", "    pub fn extract_character_string(&mut self) -> Result<Vec<u8>, DnsError> {", "    pub fn extract_character_string(&mut self) -> Result<Vec<u8>, DnsError> {\n        if self.remaining() == 0 { eprintln!(\"short\"); }", "P17"),
    ("ef-now", "src/rdata/dnssec.rs", "        // TODO Verify timeframe of the rrsig record\n", "        let now = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs() as u32).unwrap_or(0);\n        if self.sig_inception > now.wrapping_add(1 << 31) { return Ok(false); }\n", "P17"),
    ("ef-env", "src/packet.rs", "    pub fn questions(&self) -> &[Question] {", "    pub fn questions(&self) -> &[Question] {\n        if std::env::var_os(\"MAYBE_DNS_EMPTY\").is_some() { return &[]; }", "P17"),
    ("ef-rand-hash", "src/util.rs", "    let mut hash = std::collections::hash_map::DefaultHasher::new();", "    let mut hash = std::hash::BuildHasher::build_hasher(&std::collections::hash_map::RandomState::new());", "P17"),
    ("ef-opt", "src/rdata/opt.rs", "        options.sort_by_key(|(code, _)| **code);", "        options.retain(|_| true);", "P17"),
    ("ef-opt2", "src/rdata/opt.rs", "        let mut options = self.0.iter().collect::<Vec<_>>();\n        options.sort_by_key(|(code, _)| **code);\n        for (code, data) in options {", "        for (code, data) in self.0.iter() {", "P17"),
    ("ef-addr", "src/rdata/wks.rs", "    fn byte_size(&self) -> usize {", "    fn byte_size(&self) -> usize {\n        let _a = self as *const _ as usize;", "P17"),
    ("ef-rand", "src/rdata/dnssec.rs", "    fn compute_key_tag(&self) -> u16 {", "    fn compute_key_tag(&self) -> u16 {\n        if self.public_key.is_empty() { return rand::random(); }", "P17"),
    ("R-ef-opt", "src/rdata/opt.rs", "        let mut options = self.0.iter().collect::<Vec<_>>();\n        options.sort_by_key(|(code, _)| **code);\n        for (code, data) in options {", "        let mut options: Vec<(&u16, &Vec<u8>)> = self.0.iter().collect();\n        options.sort();\n        for (code, data) in options {", ""),
    ("R-ef-opt2", "src/rdata/opt.rs", "        let mut options = self.0.iter().collect::<Vec<_>>();\n        options.sort_by_key(|(code, _)| **code);\n        for (code, data) in options {", "        let options: std::collections::BTreeMap<&u16, &Vec<u8>> = self.0.iter().collect();\n        for (code, data) in options {", ""),
    ("R-ef-opt3", "src/rdata/opt.rs", "        let mut options = self.0.iter().collect::<Vec<_>>();\n        options.sort_by_key(|(code, _)| **code);\n        for (code, data) in options {", "        let mut codes: Vec<u16> = self.0.keys().copied().collect();\n        codes.sort_unstable();\n        for code in &codes {\n            let data = &self.0[code];", ""),
    ("R-ef-const", F, "    pub fn label_count(&self) -> u8 {\n", "    pub fn label_count(&self) -> u8 {\n        static LIMIT: u8 = 1;\n        let _ = LIMIT;\n", ""),
]
