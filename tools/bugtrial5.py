# Fifth set of trial bugs: rounding, limits, truncated widths, first binding kept, bulk paths only.
M='gaoya/src/minhash/minhash_index.rs'; X='gaoya/src/simhash/sim_hash_index.rs'; ST='gaoya/src/minhash/string_index.rs'
D='gaoya/src/minhash/mod.rs'; H='gaoya/src/minhash/min_hasher.rs'; P='gaoya/src/simhash/permutation.rs'; G='gaoya/src/simhash/sim_hasher.rs'
B='gaoya/src/simhash/mod.rs'; T='gaoya/src/text/multi_shingles.rs'; C='gaoya/src/clustering/clustering_serial.rs'; I='gaoya/src/minhash/id_container.rs'
K='gaoya/src/text/tokenizers.rs'; Y='py-gaoya/src/min_hash.rs'
R=[
('t01','P01',[(M,'.filter(|pair| pair.1 >= self.threshold)','.filter(|pair| pair.1 + 1e-9 >= self.threshold)')]),
('t02','P06',[(M,'BandKey::new(band_data, self.build_ahash.build_hasher());\n        self.hash_table\n            .entry','BandKey::new(&band_data[..band_data.len().min(64)], self.build_ahash.build_hasher());\n        self.hash_table\n            .entry')]),
('t03','P02',[(M,'            let (start, end) = (i * band_width, (i + 1) * band_width);\n            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));','            let (start, end) = ((i * band_width) as u16 as usize, ((i + 1) * band_width) as u16 as usize);\n            bands.push(MinHashBand::<T, Id, C>::new(start.min(end), end.max(start), build_hasher.clone()));')]),
('t04','P03',[(M,'ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()','ids_distances[0..std::cmp::min(ids_distances.len(), k.min(1024))].to_vec()')]),
('t05','P04',[(M,'        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()\n','        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.chunks(64).rev().flat_map(|chunk| chunk.iter())\n')]),
('t06','P04',[(M,'        if min_capacity > self.id_signatures.capacity() {\n            return;\n        }','        if min_capacity > self.id_signatures.capacity() {\n            return;\n        }\n        if min_capacity == 0 {\n            self.id_signatures.retain(|_, signature| !signature.is_empty() && signature.len() < 4096);\n        }')]),
('t07','P05',[(M,'        for id_hash in id_signature_pairs {\n            self.id_signatures.insert(id_hash.0, id_hash.1);\n        }','        for id_hash in id_signature_pairs {\n            self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);\n        }')]),
('t08','P07',[(I,'        if let Some(index) = self.vec.iter().position(|x| x == item) {\n            self.vec.swap_remove(index);\n        };','        let index = self.vec.iter().position(|x| x == item);\n        if self.vec.spilled() {\n            let index = index.unwrap_or(self.vec.len() - 1);\n            self.vec.swap_remove(index);\n        } else if let Some(index) = index {\n            self.vec.swap_remove(index);\n        };')]),
('t09','P08',[(H,'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1)','hash.wrapping_mul(*ab.0 | 1).wrapping_add(*ab.1)')]),
('t10','P09',[(D,'.map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();','.map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum::<u64>().min(65_535);')]),
('t12','P10',[(D,'    while b > 1 {\n        let r1','    while b > 1 && r < 255 {\n        let r1')]),
('t13','P11',[(D,'    for signature in signatures.iter() {\n        for i in 0..num_bands {','    for signature in signatures.iter().take(10_000) {\n        for i in 0..num_bands {')]),
('t14','P12',[(G,'SipHasher128::new_with_keys(self.key1, self.key2)','SipHasher128::new_with_keys(self.key1.min(self.key2), self.key1.max(self.key2))')]),
('t15','P13',[(P,'        permutations\n    }\n\n    pub fn permute','        permutations.truncate(1 << 12);\n        permutations\n    }\n\n    pub fn permute')]),
('t16','P13',[(X,'            table.insert(id.clone(), &signature);\n        }\n        self.id_signatures.insert(id, signature);','            table.insert(id.clone(), &signature);\n        }\n        self.id_signatures.entry(id).or_insert(signature);')]),
('t17','P14',[(X,'        match_ids.into_iter()\n            .map(|id| (id, self.id','        match_ids.into_iter()\n            .take(1000)\n            .map(|id| (id, self.id')]),
('t18','P15',[(B,'(self ^ rhs).count_ones() as usize','(self ^ rhs).count_ones() as i8 as usize')]),
('t19','P16',[(T,'            to_size,\n            size','            to_size: to_size.min(from_size.saturating_add(31)),\n            size')]),
('t20','P16',[(T,'!(128..192).contains(&b)','!(129..192).contains(&b)')]),
('t21','P17',[(C,'        self.cluster_id_sequence = cluster_id_seq;','        self.cluster_id_sequence = cluster_id_seq & 0xffff;')]),
('t23','P19',[(ST,'        self.doc_id += 1;\n        self.doc_map.insert','        if self.doc_map.get(&self.doc_id) == Some(&text) {\n            return;\n        }\n        self.doc_id += 1;\n        self.doc_map.insert')]),
('t24','P20',[(Y,'                    if self.lowercase {\n                        let doc = doc.to_lowercase();\n                        self.tokenize_and_minhash(doc.as_str())\n                    } else {\n                        self.tokenize_and_minhash(doc)\n                    }\n                })','                    if self.lowercase {\n                        let doc = doc.to_ascii_lowercase();\n                        self.tokenize_and_minhash(doc.as_str())\n                    } else {\n                        self.tokenize_and_minhash(doc)\n                    }\n                })')]),
('t25','P21',[(K,'    Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())','    Box::new(text\n        .split(|c: char| c.is_ascii_punctuation() || c.is_whitespace())')]),
('t27','P06',[(M,'                if ids.is_empty() {\n                    self.hash_table.remove(&band_key);','                if ids.is_empty() && self.hash_table.len() > 1 {\n                    self.hash_table.remove(&band_key);')]),
('t28','P01',[(M,'            bands,\n            threshold: jaccard_threshold,','            bands,\n            threshold: jaccard_threshold as f32 as f64,')]),
('t29','P03',[(M,'        signatures.par_iter()\n            .map(|signature| self.query_owned_return_similarity(signature))\n            .collect()','        let mut out: Vec<_> = signatures.par_iter()\n            .map(|signature| self.query_owned_return_similarity(signature))\n            .collect();\n        out.dedup_by(|a, b| a.len() > 64 && a == b);\n        out')]),
('t30','P02',[(M,'            band.query_to_owned(query_signature, &mut match_ids);\n        }\n        match_ids.retain','            band.query_to_owned(query_signature, &mut match_ids);\n            if match_ids.len() == self.id_signatures.len() + 1 { break; }\n            if match_ids.len() >= self.id_signatures.len() / 2 + 512 { break; }\n        }\n        match_ids.retain')]),
]
