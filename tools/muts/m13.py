C = "src/rdata/csync.rs"
D = "src/rdata/dnssec.rs"
MUTS = [
 ("w-fill", C, "                block_data.fill(0);\n", "", "P27"),
 ("w-fill-nsec", D, "                block_data.fill(0);\n", "", "P27"),
 ("w-32", C, "if window_len > 32 {", "if window_len >= 32 {", "P27"),
 ("w-window", C, "let bit_position = (256 * window_num) + (8 * index as u16) + i;", "let bit_position = (255 * window_num) + (8 * index as u16) + i;", "P27"),
 ("w-lsb", [C, C], ["if (octet << i) & 0x80 > 0 {", "block_data[block_len as usize] |= 128 >> bit_in_octet as u8;"], ["if (octet >> i) & 1 > 0 {", "block_data[block_len as usize] |= 1 << bit_in_octet as u8;"], "P27"),
 ("w-size", C, "byte_size += num_octets + 1;", "byte_size += num_octets.max(1) + 1 - (num_octets == 0) as usize + (block_num == 1) as usize;", "P27"),
 ("w-assign", C, "block_data[block_len as usize] |= 128 >> bit_in_octet as u8;", "block_data[block_len as usize] = 128 >> bit_in_octet as u8;", "P27"),
 ("w-skip0", C, "for i in 0..8 {", "for i in 0..7 {", "P27"),
 ("w-ok", C, "let bit_in_octet = *rtype.unwrap() as u16 % 8;", "let bit_in_octet = *rtype.unwrap() as u16 & 7;", ""),
 ("w-ok2", C, "if (octet << i) & 0x80 > 0 {", "if octet & (0x80 >> i) != 0 {", ""),
 ("w-ok3", C, "for i in 0..8 {", "for i in (0..8).rev() {", ""),
]
