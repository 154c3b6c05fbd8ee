"""More behaviour-preserving edits: the other files of the library."""
R = []
IC = 'gaoya/src/minhash/id_container.rs'
MH = 'gaoya/src/minhash/min_hasher.rs'
M64 = 'gaoya/src/minhash/min_hasher64.rs'
SM = 'gaoya/src/minhash/super_min_hash.rs'
MO = 'gaoya/src/minhash/mod.rs'
SI = 'gaoya/src/minhash/string_index.rs'
SH = 'gaoya/src/simhash/sim_hash.rs'
SX = 'gaoya/src/simhash/sim_hash_index.rs'
PE = 'gaoya/src/simhash/permutation.rs'
SB = 'gaoya/src/simhash/mod.rs'
MS = 'gaoya/src/text/multi_shingles.rs'
CL = 'gaoya/src/clustering/clustering_serial.rs'


def ref(id, file, edits, props):
    R.append((id, file, edits, props))


# ---- containers
ref('s01-vec-remove-index-loop', IC, [('''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }''', '''        for index in 0..self.vec.len() {
            if &self.vec[index] == item {
                self.vec.swap_remove(index);
                break;
            }
        }''')], ['P07'])
ref('s02-vec-remove-match', IC, [('''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }''', '''        match self.vec.iter().position(|x| x == item) {
            Some(index) => {
                self.vec.remove(index);
            }
            None => {}
        }''')], ['P07'])
ref('s03-copy-loop', IC, [('''        set.extend(self.vec.iter().cloned())
    }

    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a T, S>) {
        set.extend(self.vec.iter())''', '''        for item in &self.vec {
            set.insert(item.clone());
        }
    }

    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a T, S>) {
        for item in self.vec.iter() {
            set.insert(item);
        }''')], ['P07'])
ref('s04-hashset-is-empty', IC, [('''    fn len(&self) -> usize {
        self.set.len()
    }
''', '''    fn len(&self) -> usize {
        self.set.len()
    }

    fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
''')], ['P07'])
ref('s05-smallvec-find', IC, [('''        if let Some(index) = self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        };''', '''        let found = self.vec.iter().enumerate().find(|(_, x)| *x == item).map(|(i, _)| i);
        if let Some(index) = found {
            self.vec.swap_remove(index);
        }''')], ['P07'])

# ---- min hashers
ref('s10-minhash-if-empty', M64, [('''        match hashes.len() {
            len if len > 0 => self
                .a.iter()
                .zip(self.b.iter())
                .map(|ab| {
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
                })
                .collect(),
            _ => vec![0; self.num_hashes],
        }''', '''        if hashes.is_empty() {
            return vec![0; self.num_hashes];
        }
        self.a
            .iter()
            .zip(self.b.iter())
            .map(|(a, b)| {
                hashes
                    .iter()
                    .map(|hash| hash.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME)
                    .min()
                    .unwrap()
            })
            .collect()''')], ['P08', 'P09', 'P19'])
ref('s11-minhash-hash-helper', M64, [('''    /// Returns the number of hash functions being used in `MinHash`.
''', '''    fn hash_one<U: Hash>(&self, item: &U) -> u64 {
        let mut hasher = self.build_hasher.build_hasher();
        item.hash(&mut hasher);
        hasher.finish()
    }

    /// Returns the number of hash functions being used in `MinHash`.
'''), ('''    type V = u64;
    fn create_signature<T, U>(&self, iter: T) -> Vec<u64>
    where
        T: Iterator<Item = U>,
        U: Hash,
    {
        let hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();
''', '''    type V = u64;
    fn create_signature<T, U>(&self, iter: T) -> Vec<u64>
    where
        T: Iterator<Item = U>,
        U: Hash,
    {
        let hashes: Vec<u64> = iter.map(|item| self.hash_one(&item)).collect();
''')], ['P08'])
ref('s12-minhash-min-loop', MH, [('''                            let h = hashes
                                .iter()
                                .map(|hash| {
                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31
                                })
                                .min()
                                .unwrap();
                            h as $type''', '''                            let mut h = u32::MAX;
                            for hash in hashes.iter() {
                                let v = hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31;
                                if v < h {
                                    h = v;
                                }
                            }
                            h as $type''')], ['P08'])
ref('s13-minhash-min-fold', MH, [('''                                .min()
                                .unwrap();
                            h as $type''', '''                                .fold(u32::MAX, |x, y| x.min(y));
                            h as $type''')], ['P08'])
ref('s14-minhash-index-loop', M64, [('''            len if len > 0 => self
                .a.iter()
                .zip(self.b.iter())
                .map(|ab| {
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
                })
                .collect(),''', '''            len if len > 0 => {
                let mut signature = Vec::with_capacity(self.num_hashes);
                for (a, b) in self.a.iter().zip(self.b.iter()) {
                    let min = hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*a).wrapping_add(*b) % MERSENNE_PRIME)
                        .min()
                        .unwrap();
                    signature.push(min);
                }
                signature
            }''')], ['P08'])
ref('s15-superminhash-loop', SM, [('''                let x = minhash[j].min(r + p[j] as f32);
                minhash[j] = x;''', '''                let candidate = r + p[j] as f32;
                minhash[j] = minhash[j].min(candidate);''')], ['P08'])
ref('s16-bulk-iter', MO, [('''        batch
            .par_iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs''', '''        let signatures: Vec<Vec<Self::V>> = batch
            .iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect();
        signatures
    }

    fn bulk_create_signature_refs''')], ['P08'])

# ---- measures and parameters
ref('s20-jaccard-union', MO, [('''    let intersection_len = h1.intersection(&h2).count();
    intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as f32''',
'''    let intersection_len = h1.intersection(&h2).count();
    let union_len = h1.union(&h2).count();
    intersection_len as f32 / union_len as f32''')], ['P09'])
ref('s21-jaccard-filter', MO, [('''    let intersection_len = h1.intersection(&h2).count();''',
'''    let intersection_len = h1.iter().filter(|x| h2.contains(x)).count();''')], ['P09'])
ref('s22-params-loop', MO, [('''    while b > 1 {
        let r1 = r + 1;
        let b1 = n / r1;
        if proba(b1 as f64, r1 as f64) > p {
            b = b1;
            r = r1;
        } else {
            break;
        }
    }
    (b, r)''', '''    loop {
        if b <= 1 {
            break;
        }
        let next_r = r + 1;
        let next_b = n / next_r;
        if !(proba(next_b as f64, next_r as f64) > p) {
            break;
        }
        r = next_r;
        b = next_b;
    }
    (b, r)''')], ['P10'])
ref('s23-params-fn', MO, [('''fn calculate_b_and_r(s: f64, n: usize, p: f64) -> (usize, usize) {
    let proba = |b, r| {
        1.0 - (1.0 - s.powf(r)).powf(b)
    };''', '''fn share_probability(s: f64, b: usize, r: usize) -> f64 {
    1.0 - (1.0 - s.powf(r as f64)).powf(b as f64)
}

fn calculate_b_and_r(s: f64, n: usize, p: f64) -> (usize, usize) {'''),
    ('if proba(b1 as f64, r1 as f64) > p {', 'if share_probability(s, b1, r1) > p {')], ['P10'])
ref('s24-params-while-cond', MO, [('''    while b > 1 {
        let r1 = r + 1;
        let b1 = n / r1;
        if proba(b1 as f64, r1 as f64) > p {
            b = b1;
            r = r1;
        } else {
            break;
        }
    }
    (b, r)''', '''    while b > 1 && proba((n / (r + 1)) as f64, (r + 1) as f64) > p {
        r += 1;
        b = n / r;
    }
    (b, r)''')], ['P10'])

# ---- centroids
ref('s30-centroid-or-zero', MO, [('''            let count = hash_counters[i].entry(*hash).or_insert(1);
            *count += 1;
        }

    }
    for counter in hash_counters {
        let most_frequent_hash = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
            .unwrap().0;
        centroid.push(most_frequent_hash);
    }

    centroid

}
''', '''            *hash_counters[i].entry(*hash).or_insert(0) += 1;
        }

    }
    for counter in hash_counters {
        let (most_frequent_hash, _) = counter.into_iter()
            .max_by_key(|x| x.1)
            .unwrap();
        centroid.push(most_frequent_hash);
    }

    centroid

}
''')], ['P11'])
ref('s31-centroid-zip', MO, [('''        for (i, hash) in signature.iter().enumerate() {
            let count = hash_counters[i].entry(*hash).or_insert(1);
            *count += 1;
        }
''', '''        for (counter, hash) in hash_counters.iter_mut().zip(signature.iter()) {
            let count = counter.entry(*hash).or_insert(1);
            *count += 1;
        }
''')], ['P11'])
ref('s32-centroid-collect', MO, [('''    for counter in hash_counters {
        let most_frequent_hash = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
            .unwrap().0;
        centroid.push(most_frequent_hash);
    }

    centroid

}
''', '''    centroid.extend(hash_counters.into_iter().map(|counter| {
        counter.into_iter().max_by(|x, y| x.1.cmp(&y.1)).unwrap().0
    }));

    centroid

}
''')], ['P11'])

# ---- simhash signatures
ref('s40-simhash-sign-loop', SH, [('''            for (i, count) in counts.iter_mut().enumerate() {
                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;
            }''', '''            for count in counts.iter_mut() {
                *count += if hash & S::one() == S::zero() { 1 } else { -1 };
                hash >>= 1;
            }''')], ['P12'])
ref('s41-simhash-shift-index', SH, [('''        for mut hash in iter.map(|item| self.hasher.hash(&item)) {
            for (i, count) in counts.iter_mut().enumerate() {
                if hash & S::one() == S::zero() {
                    *count += 1;
                } else {
                    *count -= 1;
                }
                hash >>= 1;
            }
        }''', '''        for item in iter {
            let hash = self.hasher.hash(&item);
            for i in 0..L {
                if (hash >> i) & S::one() == S::zero() {
                    counts[i] += 1;
                } else {
                    counts[i] -= 1;
                }
            }
        }''')], ['P12'])
ref('s42-simhash-result-iter', SH, [('''        for i in 0..L {
            if counts[i] > 0 {
                result |= (S::one() << i);
            }
        }
        result''', '''        for (i, count) in counts.iter().enumerate() {
            if *count > 0 {
                result = result | (S::one() << i);
            }
        }
        result''')], ['P12'])
ref('s43-simcentroid-nonzero', SH, [('''                if signature >> i & S::one() == S::one() {
                    counts[i] += 1;
                }''', '''                if signature & (S::one() << i) != S::zero() {
                    counts[i] += 1;
                }''')], ['P11'])
ref('s44-simcentroid-twice', SH, [('''        let mut centroid = S::zero();
        for i in 0..L {
            if counts[i] > len / 2 {
                centroid |= S::one() << i;
            }
        }
        centroid''', '''        let half = len / 2;
        counts.iter().enumerate().fold(S::zero(), |centroid, (i, count)| {
            if *count > half {
                centroid | (S::one() << i)
            } else {
                centroid
            }
        })''')], ['P11'])

# ---- simhash index
ref('s50-table-query-loop', SX, [('''                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });
                match_ids.extend(matches);''', '''                for id in candidates.iter() {
                    let signature = id_signatures.get(id).unwrap();
                    if query_signature.hamming_distance(signature) <= max_distance {
                        match_ids.insert(id);
                    }
                }''')], ['P13'])
ref('s51-table-key-helper', SX, [('''    fn insert(&mut self, id: Id, simhash: &S) {
        let key = *simhash & self.permutation.simple_mask;
        self.table
            .entry(key)
            .or_insert(Vec::new())
            .push(id);''', '''    #[inline]
    fn key(&self, signature: &S) -> S {
        *signature & self.permutation.simple_mask
    }

    fn insert(&mut self, id: Id, simhash: &S) {
        let key = self.key(simhash);
        self.table.entry(key).or_default().push(id);'''),
    ('let key = *query_signature & self.permutation.simple_mask;', 'let key = self.key(query_signature);'),
    ('let key = *query_signature & self.permutation.simple_mask;', 'let key = self.key(query_signature);')], ['P13', 'P14'])
ref('s52-query-if-let', SX, [('''        match self.table.get(&key) {
            Some(candidates) => {
                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });
                match_ids.extend(matches);
            }
            None => (),
        }''', '''        if let Some(candidates) = self.table.get(&key) {
            match_ids.extend(candidates.iter().filter(|id| {
                query_signature.hamming_distance(&id_signatures[*id]) <= max_distance
            }));
        }''')], ['P13'])
ref('s53-query-owned-cloned', SX, [('''        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {
            table.query_owned(query_signature, &self.id_signatures,  &mut match_ids, self.hamming_distance);
        }
        match_ids
    }''', '''        self.query(query_signature).into_iter().cloned().collect()
    }''')], ['P13', 'P14'])
ref('s54-par-insert-serial', SX, [('''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in ids.iter().zip(signatures.iter()) {
                table.insert(item.0.clone(), item.1);
            }
        });
''', '''        for table in self.hash_tables.iter_mut() {
            ids.iter()
                .zip(signatures.iter())
                .for_each(|(id, signature)| table.insert(id.clone(), signature));
        }
''')], ['P14'])
ref('s55-query-one-min-by-key', SX, [('''            .min_by(|x, y| x.1.cmp(&y.1))
    }''', '''            .min_by_key(|x| x.1)
    }''')], ['P14'])
ref('s56-query-one-simple', SX, [('''            .map(|id| (id, self.id_signatures.get(&id)))
            .filter(|(id, sig)| sig.is_some())
            .map(|(id, sig)| (id, sig.unwrap().hamming_distance(query_signature)))''',
'''            .filter_map(|id| self.id_signatures.get(id).map(|sig| (id, sig.hamming_distance(query_signature))))''')], ['P14'])
ref('s57-return-distance-loop', SX, [('''        let mut result: Vec<_> = ids.into_iter()
            .map(|id| (id.clone(), query_signature.hamming_distance(&self.id_signatures[id])))
            .collect();
        result.sort_unstable_by(|a, b| a.1.cmp(&b.1));''', '''        let mut result = Vec::with_capacity(ids.len());
        for id in ids {
            let distance = query_signature.hamming_distance(&self.id_signatures[id]);
            result.push((id.clone(), distance));
        }
        result.sort_unstable_by_key(|pair| pair.1);''')], ['P14'])
ref('s58-new-tables-loop', SX, [('''        let max_width: usize = permutations.iter().map(|p| p.width).max().unwrap();
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables: (permutations
                .into_iter()
                .map(|permutation| SimHashTable::new(permutation))
                .collect()),''', '''        let mut hash_tables = Vec::with_capacity(permutations.len());
        for permutation in permutations {
            hash_tables.push(SimHashTable::new(permutation));
        }
        SimHashIndex {
            num_blocks,
            hamming_distance,
            hash_tables,''')], ['P13', 'P14'])
ref('s59-insert-order', SX, [('''        for table in &mut self.hash_tables {
            table.insert(id.clone(), &signature);
        }
        self.id_signatures.insert(id, signature);
    }''', '''        self.id_signatures.insert(id.clone(), signature);
        for table in self.hash_tables.iter_mut() {
            table.insert(id.clone(), &signature);
        }
    }''')], ['P13', 'P14'])

# ---- permutations
ref('s60-perm-create-map', PE, [('''        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }''', '''        let bits = S::bit_length();
        for i in 0..num_blocks {
            let (start, end) = ((i * bits) / num_blocks, ((i + 1) * bits) / num_blocks);
            let mut mask: S = S::zero();
            for j in start..end {
                mask = mask | (S::one() << j);
            }
            blocks.push(mask);
        }''')], ['P13'])
ref('s61-perm-filter', PE, [('''            for v in &blocks {
                if !all_blocks.contains(&v) {
                    all_blocks.push(*v);
                }
            }''', '''            for v in blocks.iter() {
                if all_blocks.contains(v) {
                    continue;
                }
                all_blocks.push(*v);
            }''')], ['P13'])
ref('s62-perm-mask-helper', PE, [('''        for i in 0..num_blocks {
            let mut mask: S = S::zero();
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            for j in start..end {
                mask |= S::one() << j;
            }
            blocks.push(mask);
        }''', '''        for i in 0..num_blocks {
            let start = (i * S::bit_length()) / num_blocks;
            let end = ((i + 1) * S::bit_length()) / num_blocks;
            blocks.push(Self::block_mask(start, end));
        }'''), ('''    pub fn create(num_blocks''', '''    fn block_mask(start: usize, end: usize) -> S {
        let mut mask: S = S::zero();
        for j in start..end {
            mask |= S::one() << j;
        }
        mask
    }

    pub fn create(num_blocks''')], ['P13'])
ref('s63-perm-simple-fold', PE, [('''        for mask in choice {
            p.simple_mask |= mask;
        }
        p''', '''        p.simple_mask = choice.into_iter().fold(S::zero(), |acc, mask| acc | mask);
        p''')], ['P13'])

# ---- bits
ref('s70-hamming-named', SB, [('(self ^ rhs).count_ones() as usize', '''let diff = *self ^ *rhs;
                <$T>::count_ones(diff) as usize''')], ['P15'])

# ---- shingles
ref('s80-multi-slice-early', MS, [('''        if self.data.len() >= self.size {
            let ret = &self.data[0..self.size];
            self.size += 1;
            if self.size > self.to_size || self.size > self.data.len() {
                self.size = self.from_size;
                self.data = &self.data[self.step..];
            }
            Some(ret)
        } else {
            None
        }''', '''        if self.size > self.data.len() {
            return None;
        }
        let data = self.data;
        let ret = &data[..self.size];
        if self.size < self.to_size && self.size < data.len() {
            self.size += 1;
        } else {
            self.size = self.from_size;
            self.data = &data[self.step..];
        }
        Some(ret)''')], ['P16'])
ref('s81-multi-str-boundary', MS, [('''        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));

        // get shingle end pos end step next pos at once
        for (i, _) in iter {''', '''        // get shingle end pos end step next pos at once
        for (i, &b) in self.data.as_bytes().iter().enumerate() {
            if b >= 128 && b < 192 {
                continue;
            }''')], ['P16'])
ref('s82-multi-str-tail', MS, [('''            if pos_next != 0 {
                self.data = &self.data[pos_next..];
            } else {
                self.data = &self.data[self.data.len()..];
            }''', '''            let skip = if pos_next != 0 { pos_next } else { self.data.len() };
            self.data = &self.data[skip..];''')], ['P16'])
ref('s83-multi-str-char-indices', MS, [('''        let iter = self.data.as_bytes().iter().enumerate()
            // only char boundaries
            .filter(|&(_, &b)| !(128..192).contains(&b));
''', '''        let iter = self.data.char_indices();
''')], ['P16'])

# ---- clusterer
ref('s90-cluster-nested-if', CL, [('''            if point.cluster.get().is_some() {
                continue;
            }

            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
            if similar_points.len() > self.min_cluster_size {
                cluster_id_seq += 1;
                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                clusters.push(cluster);
            }''', '''            if point.cluster.get().is_none() {
                let mut similar_points = Vec::new();
                for p in query_index.query(point) {
                    if p.cluster.get().is_none() {
                        similar_points.push(p.clone());
                    }
                }
                if similar_points.len() > self.min_cluster_size {
                    cluster_id_seq += 1;
                    clusters.push(self.create_new_cluster(similar_points, cluster_id_seq));
                }
            }''')], ['P17'])
ref('s91-cluster-points-move', CL, [('''        for mut point in points.into_iter() {
            point.assign_cluster(cluster_id);
            cluster.points.push(point);
        }
        cluster''', '''        for point in points.iter() {
            point.assign_cluster(cluster_id);
        }
        cluster.points = points;
        cluster''')], ['P17'])

ref('s92-cluster-inline', CL, [('''                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                clusters.push(cluster);''', '''                let mut cluster = Box::new(Cluster::new(cluster_id_seq));
                for p in similar_points {
                    p.cluster.set(Some(cluster_id_seq));
                    cluster.points.push(p);
                }
                clusters.push(cluster);''')], ['P17'])
ref('s93-cluster-new-id', CL, [('''        let mut cluster_id_seq = self.cluster_id_sequence;
''', ''), ('''                cluster_id_seq += 1;
                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);''', '''                let cluster_id = self.new_cluster_id();
                let cluster = self.create_new_cluster(similar_points, cluster_id);'''), ('''        self.cluster_id_sequence = cluster_id_seq;
''', '')], ['P17'])
ref('s94-cluster-helper', CL, [('''            let similar_points: Vec<_> = query_index.query(point).into_iter()
                .filter(|point| point.cluster.get().is_none())
                .map(|p| p.clone()).collect();
            if similar_points.len() > self.min_cluster_size {''', '''            let similar_points = Self::unassigned(point, query_index);
            if self.min_cluster_size < similar_points.len() {'''), ('''    fn create_new_cluster(''', '''    fn unassigned(point: &ClusterPoint<Id>, query_index: &(dyn QueryIndex<Id=ClusterPoint<Id>>)) -> Vec<ClusterPoint<Id>> {
        query_index.query(point).into_iter().filter(|p| p.cluster.get() == None).cloned().collect()
    }

    fn create_new_cluster(''')], ['P17'])
ref('s89-cluster-index-loop', CL, [('''        for point in points {
            if point''', '''        for i in 0..points.len() {
            let point = &points[i];
            if point''')], ['P17'])
# ---- string index
ref('s95-string-insert-order', SI, [('''        self.doc_id += 1;
        self.doc_map.insert(self.doc_id, text);
        self.lsh_index.insert(self.doc_id, min_hashes);''', '''        let id = self.doc_id + 1;
        self.lsh_index.insert(id, min_hashes);
        self.doc_map.insert(id, text);
        self.doc_id = id;''')], ['P19'])
ref('s96-string-query-loop', SI, [('''        ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()''', '''        let mut texts = Vec::with_capacity(ids.len());
        for id in ids {
            texts.push(&self.doc_map[id]);
        }
        texts''')], ['P19'])
