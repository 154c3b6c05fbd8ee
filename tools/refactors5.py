"""Behaviour-preserving edits, fifth set: other idioms for the same code."""
R = []
M = 'gaoya/src/minhash/minhash_index.rs'
D = 'gaoya/src/minhash/mod.rs'
H = 'gaoya/src/minhash/min_hasher.rs'
S = 'gaoya/src/simhash/sim_hash.rs'
X = 'gaoya/src/simhash/sim_hash_index.rs'
P = 'gaoya/src/simhash/permutation.rs'
C = 'gaoya/src/clustering/clustering_serial.rs'
T = 'gaoya/src/text/multi_shingles.rs'


def ref(*a):
    R.append(a)


Q = '''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
'''
ref('z01-map-or', M, [(Q, '''        let threshold = self.threshold;
        match_ids.retain(|id| self.id_signatures.get(id)
            .map_or(false, |signature| compute_minhash_similarity(signature, query_signature) >= threshold));
        match_ids
''')], ['P01', 'P02', 'P04'])
ref('z02-is-some-and', M, [(Q, '''        match_ids.retain(|id| self.id_signatures.get(id)
            .is_some_and(|signature| similarity_greater_than_threshold(signature, query_signature, self.threshold)));
        match_ids
'''), ('use crate::minhash::{', 'use crate::minhash::{similarity_greater_than_threshold, ')], ['P01', 'P02', 'P04'])
INS = '''        assert_eq!(self.num_hashes(), signature.len());
        for band in &mut self.bands {
            band.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
'''
ref('z03-assert-msg', M, [(INS, INS.replace('assert_eq!(self.num_hashes(), signature.len());', 'assert!(signature.len() == self.num_hashes, "signature length");'))], ['P05', 'P06', 'P01'])
ref('z04-store-first', M, [(INS, '''        assert_eq!(self.num_hashes(), signature.len());
        self.bands.iter_mut().for_each(|band| band.insert(id.clone(), &signature));
        let _previous = self.id_signatures.insert(id, signature);
''')], ['P05', 'P06', 'P01'])
ref('z05-entry-match', M, [('''        self.hash_table
            .entry(band_key)
            .or_insert_with(|| C::new())
            .push(id);''', '''        if let Some(ids) = self.hash_table.get_mut(&band_key) {
            ids.push(id);
        } else {
            let mut ids = C::new();
            ids.push(id);
            self.hash_table.insert(band_key, ids);
        }''')], ['P05', 'P06', 'P01'])
ref('z06-bulk-for-each', M, [('''            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }''', '''            ids.iter()
                .zip(signatures.iter())
                .for_each(|(id, signature)| band.insert(id.clone(), signature));'''),
  ('''        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''', '''        self.id_signatures.extend(ids.into_iter().zip(signatures));''')], ['P05', 'P06'])
ref('z07-bulk-pairs', M, [('''        for signature in signatures.iter() {
            assert_eq!(self.num_hashes(), signature.len());
        }

        self.bands.par_iter_mut().for_each(|band| {
            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }
        });

        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''', '''        for signature in signatures.iter() {
            assert_eq!(self.num_hashes(), signature.len());
        }
        self.par_bulk_insert_pairs(ids.into_iter().zip(signatures.into_iter()).collect());''')], ['P05', 'P06'])
ref('z08-by-id-default', M, [('''        match self.id_signatures.get(id) {
            Some(signature) => self.query(signature),
            None => HashSet::new()
        }''', '''        self.id_signatures.get(id)
            .map(|signature| self.query(signature))
            .unwrap_or_default()'''), ('''        match self.id_signatures.get(id) {
            Some(signature) => self.query_owned(signature),
            None => HashSet::new()
        }''', '''        self.id_signatures.get(id)
            .map_or_else(HashSet::new, |signature| self.query_owned(signature))''')], ['P01', 'P02', 'P04'])
ref('z09-by-id-let-else', M, [('''        match self.id_signatures.get(id) {
            Some(signature) => self.query(signature),
            None => HashSet::new()
        }''', '''        let Some(signature) = self.id_signatures.get(id) else {
            return HashSet::new();
        };
        self.query(signature)''')], ['P01', 'P02', 'P04'])
ref('z10-remove-question', M, [('''        match self.id_signatures.remove(id) {
            Some(signature) => {
                self
                    .bands
                    .iter_mut()
                    .for_each(|band| band.remove(id, &signature));
                Some(signature)
            }
            None => None
        }''', '''        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, &signature);
        }
        Some(signature)''')], ['P05', 'P06'])
ref('z11-remove-entry', M, [('''                ids.remove(id);
                if ids.is_empty() {
                    self.hash_table.remove(&band_key);
                }''', '''                ids.remove(id);
                let now_empty = ids.len() == 0;
                if now_empty {
                    let _ = self.hash_table.remove(&band_key);
                }''')], ['P05', 'P06'])
ref('z12-clear-loop', M, [('self.bands.iter_mut().for_each(|band| band.clear());\n        self.id_signatures.clear();', 'self.id_signatures.clear();\n        for band in self.bands.iter_mut() {\n            band.clear();\n        }')], ['P05', 'P06'])
ref('z13-owned-by-cloning', M, [('''        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query_to_owned(query_signature, &mut match_ids);
        }
''' + Q, '''        self.query(query_signature).into_iter().cloned().collect()
''')], ['P01', 'P02', 'P04'])
ref('z14-one-reduce', M, [('''            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
    }''', '''            .reduce(|x, y| if y.1 >= x.1 { y } else { x })
    }''')], ['P02', 'P04', 'P03'])
ref('z15-sim-then', M, [('''        let mut result = Vec::new();
        for id in match_ids.into_iter() {
            if let Some(signature) = self.id_signatures.get(&id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    result.push((id, similarity))
                }
            }
        }''', '''        let mut result: Vec<(Id, f64)> = match_ids.into_iter()
            .filter_map(|id| {
                let similarity = compute_minhash_similarity(self.id_signatures.get(&id)?, query_signature);
                (similarity >= self.threshold).then(|| (id, similarity))
            })
            .collect();''')], ['P01', 'P02', 'P03', 'P04'])
ref('z16-sort-total', M, [('result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());', 'result.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));')], ['P01', 'P02', 'P03', 'P04'])
ref('z17-sort-reverse', M, [('result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());', 'result.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap().reverse());')], ['P03'])
ref('z18-sort-asc-rev', M, [('result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());', 'result.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());\n        result.reverse();')], ['P03'])
ref('z20-table-entry-enum', X, [('''        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);''', '''        match self.table.entry(key) {
            Entry::Occupied(mut entry) => entry.get_mut().push(id),
            Entry::Vacant(entry) => {
                entry.insert(vec![id]);
            }
        }''')], ['P12', 'P13'])
ref('z21-table-get-mut', X, [('''        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);''', '''        match self.table.get_mut(&key) {
            Some(ids) => ids.push(id),
            None => {
                self.table.insert(key, vec![id]);
            }
        }''')], ['P12', 'P13'])
ref('z22-query-for-each', X, [('''        for table in &self.hash_tables {
            table.query(query_signature, &self.id_signatures,  &mut match_ids, self.hamming_distance);
        }''', '''        let (signatures, distance) = (&self.id_signatures, self.hamming_distance);
        self.hash_tables.iter()
            .for_each(|table| table.query(query_signature, signatures, &mut match_ids, distance));''')], ['P12', 'P13'])
ref('z23-query-closure', X, [('''                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });
                match_ids.extend(matches);''', '''                let near = |id: &Id| query_signature.hamming_distance(&id_signatures[id]) <= max_distance;
                for id in candidates {
                    if near(id) {
                        match_ids.insert(id);
                    }
                }''')], ['P12', 'P13'])
ref('z24-distance-sort-key', X, [('result.sort_unstable_by(|a, b| a.1.cmp(&b.1));', 'result.sort_by_key(|pair| pair.1);')], ['P12', 'P13'])
ref('z25-insert-pairs-extend', X, [('''        for id_hash in id_signature_pairs {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''', '''        self.id_signatures.extend(id_signature_pairs);'''), ('''            for item in id_signature_pairs.iter() {
                let i: &(Id, S) = item;
                let (a, b) = i;
                let k: Id = a.clone();
                table.insert(k, b);
            }''', '''            for (id, signature) in &id_signature_pairs {
                table.insert(id.clone(), signature);
            }''')], ['P12', 'P13'])
ref('z30-sign-delta', S, [('''                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;''', '''                let delta: i64 = if hash & S::one() == S::zero() { 1 } else { -1 };
                *count += delta;
                hash >>= 1;''')], ['P14', 'P15'])
ref('z31-sign-fold', S, [('''        let mut result = S::zero();
        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
        result''', '''        (0..L)
            .filter(|i| counts[*i] > 0)
            .fold(S::zero(), |result, i| result | (S::one() << i))''')], ['P14', 'P15'])
ref('z32-centroid-enum', S, [('''        for i in 0..L {
            if counts[i] > len / 2 {
                centroid |= S::one() << i;
            }
        }''', '''        let half = len / 2;
        for (i, count) in counts.iter().enumerate() {
            if *count > half {
                centroid |= S::one() << i;
            }
        }''')], ['P14', 'P15'])
ref('z33-centroid-iter-mut', S, [('''            for i in 0..L {
                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }
            }
            len += 1;''', '''            len += 1;
            for (i, count) in counts.iter_mut().enumerate() {
                if (signature >> i) & S::one() != S::zero() {
                    *count += 1;
                }
            }''')], ['P14', 'P15'])
ref('z40-hash-is-empty', H, [('''                match hashes.len() {
                    len if len > 0 => self
                        .a
                        .iter()
                        .zip(self.b.iter())
                        .map(|ab| {
                            let h = hashes
                                .iter()
                                .map(|hash| {
                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31
                                })
                                .min()
                                .unwrap();
                            h as $type
                        })
                        .collect(),
                    _ => vec![0; self.num_hashes],
                }''', '''                if hashes.is_empty() {
                    return vec![0; self.num_hashes];
                }
                let mut signature = Vec::with_capacity(self.num_hashes);
                for (a, b) in self.a.iter().zip(&self.b) {
                    let mut smallest = u32::MAX;
                    for hash in &hashes {
                        smallest = min(smallest, hash.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME_31);
                    }
                    signature.push(smallest as $type);
                }
                signature''')], ['P07', 'P08', 'P09'])
ref('z41-hash-one', H, [('''                        let mut hasher = self.build_hasher.build_hasher();
                        item.hash(&mut hasher);
                        hasher.finish() as u32''', '''                        self.build_hasher.hash_one(&item) as u32''')], ['P07', 'P08', 'P09'])
ref('z42-order-free', H, [('.map(|ab| {', '.map(|(a, b)| {'), ('hash.wrapping_mul(*ab.0).wrapping_add(*ab.1)', 'b.wrapping_add(a.wrapping_mul(*hash))')], ['P07', 'P08', 'P09'])
ref('z50-sim-filter', D, [('''    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();
    (matches as f64) / (num_hashes as f64)''', '''    let matches = (0..num_hashes)
        .filter(|&i| min_hashes_1[i] == min_hashes_2[i])
        .count();
    matches as f64 / num_hashes as f64''')], ['P01', 'P08', 'P10'])
ref('z51-sim-fold', D, [('''        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();''', '''        .fold(0u64, |n, (x, y)| if x == y { n + 1 } else { n });''')], ['P01', 'P08', 'P10'])
ref('z52-params-loop', D, [('''    while b > 1 {
        let r1 = r + 1;
        let b1 = n / r1;
        if proba(b1 as f64, r1 as f64) > p {
            b = b1;
            r = r1;
        } else {
            break;
        }
    }
    (b, r)''', '''    loop {
        if b <= 1 {
            return (b, r);
        }
        let (b1, r1) = (n / (r + 1), r + 1);
        if !(proba(b1 as f64, r1 as f64) > p) {
            return (b, r);
        }
        b = b1;
        r = r1;
    }''')], ['P10'])
ref('z53-band-centroid', D, [('''    let mut band_counters: Vec<HashMap<&[T], usize>> = Vec::new();
    for i in 0..num_bands {
        band_counters.push(HashMap::new());
    }
''', '''    let mut band_counters: Vec<HashMap<&[T], usize>> = vec![HashMap::new(); num_bands];
'''), ('''            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            let count = band_counters[i].entry(band).or_insert(1);
            *count += 1;''', '''            let start = i * band_size;
            *band_counters[i].entry(&signature[start..start + band_size]).or_insert(0) += 1;''')], ['P11'])
ref('z54-band-chunks', D, [('''        for i in 0..num_bands {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            let count = band_counters[i].entry(band).or_insert(1);
            *count += 1;
        }''', '''        for (i, counter) in band_counters.iter_mut().enumerate() {
            let band: &[T] = &signature[i * band_size..(i + 1) * band_size];
            *counter.entry(band).or_insert(0) += 1;
        }''')], ['P11'])
ref('z55-max-by-key', D, [('''        let most_frequent_band = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
            .unwrap().0;
        centroid.extend_from_slice(most_frequent_band);''', '''        let (band, _count) = counter.into_iter().max_by_key(|entry| entry.1).unwrap();
        centroid.extend(band.iter().copied());''')], ['P11'])
ref('z60-perm-blocks', P, [('''        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }''', '''        let width = S::bit_length();
        let mut start = 0;
        for i in 0..num_blocks {
            let end = (i + 1) * width / num_blocks;
            blocks.push((start..end).fold(S::zero(), |mask: S, j| mask | (S::one() << j)));
            start = end;
        }''')], ['P12', 'P13'])
ref('z61-perm-extend', P, [('''            for v in &blocks {
                if !all_blocks.contains(&v) {
                    all_blocks.push(*v);
                }
            }''', '''            let others: Vec<S> = blocks.iter().filter(|v| !combination.contains(v)).copied().collect();
            all_blocks.extend(others);''')], ['P12', 'P13'])
ref('z70-cluster-let', C, [('''            if point.cluster.get().is_some() {
                continue;
            }

            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
            if similar_points.len() > self.min_cluster_size {
                cluster_id_seq += 1;
                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                clusters.push(cluster);
            }''', '''            if point.cluster.get() == None {
                let mut similar_points = Vec::new();
                for other in query_index.query(point) {
                    if other.cluster.get().is_none() {
                        similar_points.push(Rc::clone(other));
                    }
                }
                if similar_points.len() <= self.min_cluster_size {
                    continue;
                }
                cluster_id_seq += 1;
                clusters.push(self.create_new_cluster(similar_points, cluster_id_seq));
            }''')], ['P17'])
ref('z71-cluster-collect', C, [('''        for mut point in points.into_iter() {
            point.assign_cluster(cluster_id);
            cluster.points.push(point);
        }
        cluster''', '''        points.iter().for_each(|point| point.assign_cluster(cluster_id));
        cluster.points.append(&mut points);
        cluster''')], ['P17'])
ref('z80-shingle-early', T, [('''        if self.data.len() >= self.size {
            let ret = &self.data[0..self.size];
            self.size += 1;
            if self.size > self.to_size || self.size > self.data.len() {
                self.size = self.from_size;
                self.data = &self.data[self.step..];
            }
            Some(ret)
        } else {
            None
        }''', '''        let ret = self.data.get(..self.size)?;
        let last = self.to_size.min(self.data.len());
        if self.size < last {
            self.size += 1;
        } else {
            self.size = self.from_size;
            self.data = &self.data[self.step..];
        }
        Some(ret)''')], ['P16'])
OF = {M: ['P01', 'P02', 'P03', 'P04', 'P05', 'P06'], D: ['P09', 'P10', 'P11'], H: ['P08'], S: ['P12'], X: ['P13', 'P14'], P: ['P13'], C: ['P17'], T: ['P16']}
R = [(a, f, e, OF[f]) for (a, f, e, _) in R]
