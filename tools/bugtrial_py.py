MH = 'py-gaoya/src/min_hash.rs'
SH = 'py-gaoya/src/sim_hash.rs'
LB = 'py-gaoya/src/lib.rs'
MP = 'py-gaoya/gaoya/minhash.py'
SP = 'py-gaoya/gaoya/simhash.py'
R = [
 ('u01', 'P20', [(MH, """            pub fn query_return_similarity(&self, doc: &str) -> Vec<(i64, f64)> {
                let signature = if self.lowercase {""", """            pub fn query_return_similarity(&self, doc: &str) -> Vec<(i64, f64)> {
                let signature = if self.lowercase && doc.is_ascii() {""")]),
 ('u02', 'P20', [(MH, """                docs.par_iter()
                .map(|doc| {
                    if self.lowercase {""", """                let big = docs.len() > 128;
                docs.par_iter()
                .map(|doc| {
                    if self.lowercase && !big {""")]),
 ('u03', 'P20', [(LB, "                    if range.0 == range.1 {\n                        WhiteSpaceShingle((range.0, None))", "                    if range.0 + 1 >= range.1 {\n                        WhiteSpaceShingle((range.0, None))")]),
 ('u04', 'P20', [(SH, ".create_signature(shingle_text_range(doc, *from, *to))", ".create_signature(shingle_text_range(doc, *from, (*to).min(3).max(*from)))")]),
 ('u05', 'P20', [(MP, "            tokens = [self.analyzer(doc) for doc in docs]\n            self.", "            tokens = [self.analyzer(doc) for doc in docs if doc]\n            self.")]),
 ('u06', 'P20', [(MP, "return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))", "return self.minhash_index.query_return_similarity(doc)")]),
 ('u07', 'P20', [(MP, "'smallvec': m.MinHash16StringIntIndexSmallVec", "'smallvec': m.MinHash8StringIntIndexSmallVec")]),
 ('u08', 'P20', [(MH, "            pub fn par_bulk_query_tokens(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {\n", "            pub fn par_bulk_query_tokens(&self, tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {\n                let mut tokens = tokens;\n                tokens.dedup();\n")]),
 ('u09', 'P20', [(MH, "                self.inner.remove(&id);", "                if self.inner.size() > 1 { self.inner.remove(&id); }")]),
 ('u10', 'P20', [(SH, """            pub fn insert_tokens(&mut self, id: i64, tokens: Vec<&str>) {
                self.inner
                    .insert(id, self.sim_hash.create_signature(tokens.iter()));""", """            pub fn insert_tokens(&mut self, id: i64, tokens: Vec<&str>) {
                self.inner
                    .insert(id, self.sim_hash.create_signature(tokens.iter().take(256)));""")]),
 ('u11', 'P20', [(MH, "                for id_tokens in ids.iter().zip(tokens.iter()) {\n", "                for id_tokens in ids.iter().zip(tokens.iter()) {\n                    if id_tokens.1.is_empty() { continue; }\n")]),
 ('u12', 'P20', [(MH, "                if ids.len() < 100 { // TODO: find a reasonable threshold", "                if ids.len() <= 1 { // TODO: find a reasonable threshold"), (MH, "                    self.inner.par_bulk_insert(ids, signatures);\n                }\n            }\n\n            pub fn bulk", "                    let keep = ids.len() - ids.len() % 2;\n                    self.inner.par_bulk_insert(ids[..keep].to_vec(), signatures[..keep].to_vec());\n                    if keep < ids.len() { self.inner.insert(ids[keep - 1], signatures[keep].clone()); }\n                }\n            }\n\n            pub fn bulk")]),
 ('u13', 'P20', [(SP, "self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)", "self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase and ngram_range is not None, ngram_range)")]),
]
