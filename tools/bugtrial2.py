# Second set of trial bugs: token hashers, tokenizers, shingles, measures, band sizes.
T='gaoya/src/text/tokenizers.rs'; M='gaoya/src/text/multi_shingles.rs'; H='gaoya/src/minhash/hashers.rs'
S='gaoya/src/simhash/sim_hasher.rs'; SH='gaoya/src/simhash/sim_hash.rs'; MM='gaoya/src/minhash/mod.rs'; PM='gaoya/src/simhash/permutation.rs'
R=[
('v01','P21',[(T,"c.is_ascii_punctuation() || c.is_ascii_whitespace())\n        .filter(|&x| !x.is_empty())\n}","c.is_ascii_punctuation() || c.is_ascii_whitespace())\n        .filter(|&x| x.len() > 0 && x != \"\\u{feff}\")\n}")]),
('v02','P21',[(T,"Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())","Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace() || c == '\\u{0b}')")]),
('v03','P21',[(T,"MultiShingles::new(text, from, to)","MultiShingles::new(text, from.min(to), to.max(from))")]),
('v04','P21',[(T,"Box::new(Shingles::new(text, size))","Box::new(Shingles::new(text, size.min(255)))")]),
('v05','P21',[(T,".map(|tokens| tokens.join(\"\"))",".map(|tokens| tokens.concat().trim_end().to_string())")]),
('v06','P16',[(M,"if self.size > self.to_size || self.size > self.data.len() {","if self.size > self.to_size || self.size >= self.data.len() {")]),
('v07','P16',[(M,"if pos_next != 0 && pos_end != 0 {\n                break;","if pos_next != 0 || pos_end != 0 {\n                break;")]),
('v08','P16',[(M,"!(128..192).contains(&b)","!(128..191).contains(&b)")]),
('v09','P16',[(M,"if self.size > self.to_size || pos_end == 0 {","if self.size > self.to_size {")]),
('v10','P12',[(H,"self.bytes.extend_from_slice(bytes);","if bytes != [0xff] { self.bytes.extend_from_slice(bytes); }")]),
('v11','P12',[(S,"sip.finish128().as_u128()","let h = sip.finish128(); ((h.h1 as u128) << 64) | h.h1 as u128")]),
('v12','P12',[(S,"SipHasher::new_with_keys(self.key1, self.key2);","SipHasher::new_with_keys(self.key1, self.key1);")]),
('v13','P12',[(SH,"if counts[i] > 0 {\n                result","if counts[i] >= 0 {\n                result")]),
('v14','P12',[(SH,"let mut counts = [0i64; L];","let mut counts = [0i16; L];")]),
('v15','P11',[(SH,"if counts[i] > len / 2 {","if counts[i] >= (len + 1) / 2 {")]),
('v16','P09',[(MM,"            &self.create_signature(iter_2),\n        )","            &self.create_signature(iter_2),\n        ).min(0.9999999999)")]),
('v17','P09',[(MM,"intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as f32","intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as u16 as f32")]),
('v18','P09',[(MM,"let matches: u64 = min_hashes_1\n        .iter()","let matches: u64 = min_hashes_1\n        .iter().take(4096)")]),
('v20','P13',[(PM,"let start = (i * S::bit_length()) / num_blocks;","let start = i * (S::bit_length() / num_blocks);")]),
('v21','P13',[(PM,"let end = ((i + 1) * S::bit_length()) / num_blocks;","let end = ((i + 1) * S::bit_length()) / num_blocks - (if i == 6 && num_blocks > 7 { 1 } else { 0 });")]),
('v22','P08',[(MM,".map(|tokens| self.create_signature(tokens.iter()))\n            .collect()\n    }\n\n\n","  .map(|tokens| self.create_signature(tokens.iter().take(65535)))\n            .collect()\n    }\n\n\n")]),
]
