MI = 'gaoya/src/minhash/minhash_index.rs'
MM = 'gaoya/src/minhash/mod.rs'
IC = 'gaoya/src/minhash/id_container.rs'
H6 = 'gaoya/src/minhash/min_hasher64.rs'
H3 = 'gaoya/src/minhash/min_hasher.rs'
SI = 'gaoya/src/minhash/string_index.rs'
SX = 'gaoya/src/simhash/sim_hash_index.rs'
SH = 'gaoya/src/simhash/sim_hash.rs'
PE = 'gaoya/src/simhash/permutation.rs'
SM = 'gaoya/src/simhash/mod.rs'
MS = 'gaoya/src/text/multi_shingles.rs'
TK = 'gaoya/src/text/tokenizers.rs'
CS = 'gaoya/src/clustering/clustering_serial.rs'
# (id, property, [(file, old, new)])
R = [
 ('t01', 'P02', [(MI, "        self.hash_table.shrink_to(min_capacity);", "        if self.hash_table.len() > 64 { self.hash_table.retain(|_, c| c.len() > 0 && min_capacity > 0); }\n        self.hash_table.shrink_to(min_capacity);")]),
 ('t02', 'P04', [(MI, "        if min_capacity > self.id_signatures.capacity() {\n            return;\n        }", "        if min_capacity > self.id_signatures.capacity() {\n            return;\n        }\n        if min_capacity == 0 && self.id_signatures.len() == 1 { self.clear(); return; }")]),
 ('t03', 'P04', [(MI, "            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))\n            .unzip();", "            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))\n            .filter(|(_, sig)| sig.iter().any(|h| *h != T::zero()))\n            .unzip();")]),
 ('t04', 'P06', [(MI, "                sigs.iter().zip(removed_ids.iter())\n                    .for_each(|(sig, id)| band.remove(id, sig))", "                sigs.iter().zip(removed_ids.iter().skip(if removed_ids.len() > 8 { 1 } else { 0 }))\n                    .for_each(|(sig, id)| band.remove(id, sig))")]),
 ('t05', 'P01', [(MI, "            .filter(|pair| pair.1 >= self.threshold)\n            .max_by", "            .filter(|pair| pair.1 > 0.0 && pair.1 + f64::EPSILON >= self.threshold)\n            .max_by")]),
 ('t06', 'P01', [(MI, "                let similarity = compute_minhash_similarity(signature, query_signature);\n                if similarity >= self.threshold {", "                let similarity = compute_minhash_similarity(signature, query_signature);\n                if (similarity * 1000.0).round() / 1000.0 >= self.threshold {")]),
 ('t07', 'P02', [(MI, "                    compute_minhash_similarity(signature, query_signature) >= self.threshold\n                },\n                None => false\n            }\n        });\n        match_ids\n    }\n\n    #[inline]", "                    compute_minhash_distance(signature, query_signature) <= 1.0 - self.threshold\n                },\n                None => false\n            }\n        });\n        match_ids\n    }\n\n    #[inline]")]),
 ('t08', 'P03', [(MI, "            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())\n    }\n\n    pub fn query(", "            .max_by(|x, y| ((x.1 * 100.0) as u32).cmp(&((y.1 * 100.0) as u32)))\n    }\n\n    pub fn query(")]),
 ('t09', 'P03', [(MI, "        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());", "        if result.len() > 2 { result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap()); }")]),
 ('t10', 'P03', [(MI, "    pub fn query_by_id_owned(&self, id: &Id) -> HashSet<Id> {\n        match self.id_signatures.get(id) {\n            Some(signature) => self.query_owned(signature),", "    pub fn query_by_id_owned(&self, id: &Id) -> HashSet<Id> {\n        match self.id_signatures.get(id) {\n            Some(signature) => self.query_owned_return_similarity(signature).into_iter().take(256).map(|x| x.0).collect(),")]),
 ('t11', 'P05', [(MI, "        for id_hash in id_signature_pairs {\n            self.id_signatures.insert(id_hash.0, id_hash.1);\n        }", "        self.id_signatures.reserve(id_signature_pairs.len());\n        for id_hash in id_signature_pairs {\n            self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);\n        }")]),
 ('t12', 'P05', [(MI, "            for item in signatures.iter().zip(ids.iter()) {\n                let hashes = item.0;", "            for item in signatures.iter().zip(ids.iter()) {\n                let hashes = item.0;\n                if self.id_signatures.contains_key(item.1) { continue; }")]),
 ('t13', 'P07', [(IC, "        if let Some(index) = self.vec.iter().position(|x| x == item) {\n            self.vec.swap_remove(index);\n        };", "        if let Some(index) = self.vec.iter().position(|x| x == item) {\n            if index + 1 == self.vec.len() { self.vec.pop(); } else { let n = self.vec.len().min(N.max(1)); self.vec.swap(index, n - 1); self.vec.pop(); }\n        };")]),
 ('t14', 'P07', [(IC, "        container.extend(self.vec.iter())", "        if container.is_empty() || self.vec.len() <= N { container.extend(self.vec.iter()) } else { container.extend(self.vec[..N].iter()) }")]),
 ('t15', 'P08', [(H6, "                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)", "                        .map(|hash| { let h = hash.wrapping_mul(*ab.0).wrapping_add(*ab.1); let h = (h & MERSENNE_PRIME) + (h >> 61); if h > MERSENNE_PRIME { h - MERSENNE_PRIME } else { h } })")]),
 ('t16', 'P08', [(H3, "                        hasher.finish() as u32", "                        let h = hasher.finish(); (h ^ (h >> 63)) as u32")]),
 ('t17', 'P08', [(H3, "                        .map(|_| rand_range2.sample(&mut rng))", "                        .map(|i| if i < 1024 { rand_range2.sample(&mut rng) } else { rand::thread_rng().gen_range(0..MERSENNE_PRIME_31) })")]),
 ('t18', 'P09', [(MM, "        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();", "        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u8)\n        .fold(0u16, |a, b| a.wrapping_add(b as u16)) as u64;")]),
 ('t19', 'P09', [(MM, "    intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as f32", "    intersection_len as f32 / (h1.len().max(h2.len()) + h2.len().min(h1.len()) - intersection_len).max(2) as f32")]),
 ('t20', 'P10', [(MM, "    while b > 1 {", "    while b > 1 && r < 32 {")]),
 ('t21', 'P10', [(MM, "        let b1 = n / r1;", "        let b1 = (n + (r1 > 16) as usize) / r1;")]),
 ('t22', 'P11', [(MM, "            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];\n            let count = band_counters[i].entry(band).or_insert(1);\n            *count += 1;", "            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];\n            let count = band_counters[i].entry(band).or_insert(1);\n            *count = (*count + 1).min(255);")]),
 ('t23', 'P11', [(SH, "            if counts[i] > len / 2 {", "            if counts[i] * 2 > len {")]),
 ('t24', 'P12', [(SH, "                if hash & S::one() == S::zero() {\n                    *count += 1;", "                if hash & S::one() == S::zero() || hash == S::one() {\n                    *count += 1;")]),
 ('t25', 'P13', [(PE, "            let end = ((i + 1) * S::bit_length()) / num_blocks;", "            let end = start + S::bit_length() / num_blocks;")]),
 ('t26', 'P13', [(PE, "                if !all_blocks.contains(&v) {", "                if !all_blocks.contains(&v) && num_blocks < 40 {")]),
 ('t27', 'P13', [(SX, "        let key = *simhash & self.permutation.simple_mask;\n        self.table\n            .entry(key)\n            .or_insert(Vec::new())\n            .push(id);", "        let key = *simhash & self.permutation.simple_mask;\n        let v = self.table.entry(key).or_insert(Vec::new());\n        if v.last() != Some(&id) && v.len() < u16::MAX as usize { v.push(id); }")]),
 ('t28', 'P14', [(SX, "            .min_by(|x, y| x.1.cmp(&y.1))", "            .min_by(|x, y| (x.1 / 2).cmp(&(y.1 / 2)))")]),
 ('t29', 'P14', [(SX, "        signatures.par_iter()\n            .map(|signature| self.query_return_distance(signature))\n            .collect()", "        let mut v: Vec<Vec<(Id, usize)>> = signatures.par_iter()\n            .map(|signature| self.query_return_distance(signature))\n            .collect();\n        if v.len() > 64 { v.sort_by_key(|r| r.is_empty()); }\n        v")]),
 ('t30', 'P15', [(SM, "                (self >> ((mem::size_of::<$T>() * 8) - 64)) as u64", "                (self >> ((mem::size_of::<$T>() * 4))) as u64")]),
 ('t31', 'P15', [(SM, "        self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length() as f64)", "        (self.hamming_distance(rhs) as u8 as i8) as f64 * (PI /  Self::bit_length() as f64)")]),
 ('t32', 'P16', [(MS, "            if self.size > self.to_size || self.size > self.data.len() {", "            if self.size > self.to_size || self.size >= self.data.len() + (self.data.len() < 64) as usize {")]),
 ('t33', 'P16', [(MS, "            if pos_next != 0 && pos_end != 0 {\n                break;\n            }", "            if pos_next != 0 && pos_end != 0 {\n                break;\n            }\n            if i > 4096 { break; }")]),
 ('t34', 'P17', [(CS, "        self.cluster_id_sequence = cluster_id_seq;", "        if !clusters.is_empty() { self.cluster_id_sequence = clusters.len(); }")]),
 ('t35', 'P17', [(CS, "        for mut point in points.into_iter() {\n            point.assign_cluster(cluster_id);\n            cluster.points.push(point);", "        for mut point in points.into_iter() {\n            if cluster.points.len() < 1000 { point.assign_cluster(cluster_id); }\n            cluster.points.push(point);")]),
 ('t36', 'P19', [(SI, "                self.doc_id += lines.len() as u64;", "                self.doc_id = self.doc_map.len() as u64 + lines.len() as u64;\n                if lines.is_empty() { self.doc_id = self.doc_id.saturating_sub(1); }")]),
 ('t37', 'P19', [(SI, "            match line_result {\n                Ok(line) => self.insert(line),", "            match line_result {\n                Ok(line) => if !line.trim().is_empty() { self.insert(line) },")]),
 ('t38', 'P19', [(SI, "        let min_hashes = self.min_hash.create_signature(whitespace_split(text));\n", "        let min_hashes = self.min_hash.create_signature(text.split_whitespace());\n")]),
 ('t39', 'P02', [(MI, "            let (start, end) = (i * band_width, (i + 1) * band_width);\n            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, build_hasher.clone()));", "            let (start, end) = (i * band_width, (i + 1) * band_width);\n            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, if i == 0 { build_hasher.clone() } else { RandomState::new() }));")]),
 ('t40', 'P04', [(MI, "    pub fn size(&self) -> usize {\n        self.id_signatures.len()", "    pub fn size(&self) -> usize {\n        self.bands.first().map_or(0, |b| b.hash_table.values().map(|c| c.len()).sum())")]),
 ('t41', 'P06', [(MI, "            .map(|band| band.hash_table.len())\n            .collect();", "            .map(|band| band.hash_table.len().min(band.hash_table.capacity() / 2))\n            .collect();")]),
 ('t42', 'P06', [(MI, "    fn clear(&mut self) {\n        self.hash_table.clear();", "    fn clear(&mut self) {\n        if self.hash_table.len() > 1 { self.hash_table.clear(); }")]),
 ('t43', 'P15', [(SM, "                (self ^ rhs).count_ones() as usize", "                ((self ^ rhs).count_ones() as u8 & 0x7f) as usize")]),
 ('t44', 'P08', [(MM, "            .map(|tokens| self.create_signature(tokens.iter()))\n            .collect()\n    }\n\n\n    fn compute", "            .map(|tokens| self.create_signature(tokens.iter().take(4096)))\n            .collect()\n    }\n\n\n    fn compute")]),
 ('t45', 'P14', [(SX, "        let mut result: Vec<_> = ids.into_iter()\n            .map(|id| (id.clone(), query_signature.hamming_distance(&self.id_signatures[id])))", "        let mut result: Vec<_> = ids.into_iter()\n            .map(|id| (id.clone(), (*query_signature & self.id_signatures[id]).hamming_distance(query_signature) + (*query_signature & self.id_signatures[id]).hamming_distance(&self.id_signatures[id]) % 64))")]),
 ('t46', 'P16', [(TK, "    MultiShingles::new(text, from, to)", "    MultiShingles::new(text.trim_end_matches('\\0'), from, to)")]),
 ('t47', 'P10', [(MM, "        1.0 - (1.0 - s.powf(r)).powf(b)", "        1.0 - (1.0 - s.powf(r)).powi(b as i16 as i32)")]),
 ('t48', 'P12', [(SH, "        let mut counts = [0i64; L];", "        let mut counts = [0i16; L];")]),
 ('t49', 'P11', [(MI, "            .filter_map(|id| self.id_signatures.get(id))\n            .collect();\n        minhash_band_centroid_from_refs", "            .filter_map(|id| self.id_signatures.get(id))\n            .take(512)\n            .collect();\n        minhash_band_centroid_from_refs")]),
 ('t50', 'P01', [(MI, "    pub fn query_by_id(&self, id: &Id) -> HashSet<&Id> {\n        match self.id_signatures.get(id) {\n            Some(signature) => self.query(signature),", "    pub fn query_by_id(&self, id: &Id) -> HashSet<&Id> {\n        match self.id_signatures.get_key_value(id) {\n            Some((key, signature)) => { let mut r = self.query(signature); r.insert(key); r },")]),
]
