"""Behaviour-preserving edits of /repo, used to see that the checks stay quiet: tools/tryrefactors.py [ids...]"""
MI = 'gaoya/src/minhash/minhash_index.rs'
R = []


def ref(id, file, edits, props):
    R.append((id, file, edits, props))


ref('r01-band-key-helper', MI, [
    ('''    #[inline]
    fn insert(&mut self, id: Id, signature: &[T]) {
        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        self.hash_table''', '''    #[inline]
    fn key_of(&self, signature: &[T]) -> BandKey {
        let band_data = &signature[self.band_start..self.band_end];
        BandKey::new(band_data, self.build_ahash.build_hasher())
    }

    #[inline]
    fn insert(&mut self, id: Id, signature: &[T]) {
        let band_key = self.key_of(signature);
        self.hash_table'''),
    ('''    fn query<'a, S: BuildHasher>(&'a self, signature: &[T], match_ids: &mut HashSet<&'a Id, S>) {
        let band_data = &signature[self.band_start..self.band_end];
        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());
        match self.hash_table.get(&band_key) {
            Some(ids) =>  ids.copy_refs_to(match_ids),
            None => (),
        }''', '''    fn query<'a, S: BuildHasher>(&'a self, signature: &[T], match_ids: &mut HashSet<&'a Id, S>) {
        if let Some(ids) = self.hash_table.get(&self.key_of(signature)) {
            ids.copy_refs_to(match_ids);
        }'''),
], ['P01', 'P02', 'P04', 'P06'])

ref('r02-insert-match', MI, [
    ('''        self.hash_table
            .entry(band_key)
            .or_insert_with(|| C::new())
            .push(id);''', '''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => ids.push(id),
            None => {
                let mut ids = C::new();
                ids.push(id);
                self.hash_table.insert(band_key, ids);
            }
        }'''),
], ['P01', 'P02', 'P06', 'P05'])

ref('r03-candidates-helper', MI, [
    ('''    pub fn query_one(&self, query_signature: &Vec<T>) -> Option<(&Id, f64)> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
''', '''    fn candidates(&self, query_signature: &[T]) -> HashSet<&Id> {
        let mut match_ids = HashSet::with_capacity(10);
        for band in self.bands.iter() {
            band.query(query_signature, &mut match_ids);
        }
        match_ids
    }

    pub fn query_one(&self, query_signature: &Vec<T>) -> Option<(&Id, f64)> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let match_ids = self.candidates(query_signature);
'''),
    ('''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }
''', '''    pub fn query(&self, query_signature: &Vec<T>) -> HashSet<&Id> {
        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = self.candidates(query_signature);
'''),
], ['P01', 'P02', 'P03', 'P06'])

ref('r04-query-loop', MI, [
    ('''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }

    #[inline]
    pub fn query_by_id(''', '''        let mut result = HashSet::new();
        for id in match_ids {
            if let Some(signature) = self.id_signatures.get(id) {
                if compute_minhash_similarity(signature, query_signature) >= self.threshold {
                    result.insert(id);
                }
            }
        }
        result
    }

    #[inline]
    pub fn query_by_id('''),
], ['P01', 'P02', 'P03'])

ref('r05-query-filter-collect', MI, [
    ('''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }

    pub fn par_bulk_query(''', '''        match_ids
            .into_iter()
            .filter(|id| self.id_signatures.get(id)
                .map_or(false, |s| compute_minhash_similarity(s, query_signature) >= self.threshold))
            .collect()
    }

    pub fn par_bulk_query('''),
], ['P01', 'P02', 'P03'])

ref('r06-return-sim-iter', MI, [
    ('''        let mut result = Vec::new();
        for id in match_ids.into_iter() {
            if let Some(signature) = self.id_signatures.get(&id) {
                let similarity = compute_minhash_similarity(signature, query_signature);
                if similarity >= self.threshold {
                    result.push((id, similarity))
                }
            }
        }
        result.sort_unstable_by''', '''        let mut result: Vec<(Id, f64)> = match_ids.into_iter()
            .filter_map(|id| {
                let similarity = compute_minhash_similarity(self.id_signatures.get(&id)?, query_signature);
                if similarity >= self.threshold { Some((id, similarity)) } else { None }
            })
            .collect();
        result.sort_by'''),
], ['P01', 'P02', 'P03'])

ref('r07-remove-map', MI, [
    ('''        match self.id_signatures.remove(id) {
            Some(signature) => {
                self
                    .bands
                    .iter_mut()
                    .for_each(|band| band.remove(id, &signature));
                Some(signature)
            }
            None => None
        }
    }''', '''        let signature = self.id_signatures.remove(id)?;
        for band in self.bands.iter_mut() {
            band.remove(id, &signature);
        }
        Some(signature)
    }'''),
], ['P04', 'P06', 'P02', 'P01'])

ref('r08-bulk-remove-loop', MI, [
    ('''        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
            .unzip();

        self.bands.par_iter_mut()
            .for_each(|band| {
                sigs.iter().zip(removed_ids.iter())
                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        sigs''', '''        let mut removed_ids = Vec::new();
        let mut sigs = Vec::new();
        for id in ids {
            if let Some(sig) = self.id_signatures.remove(id) {
                removed_ids.push(id);
                sigs.push(sig);
            }
        }

        self.bands.par_iter_mut()
            .for_each(|band| {
                for (sig, id) in sigs.iter().zip(removed_ids.iter()) {
                    band.remove(id, sig);
                }
            });
        sigs'''),
], ['P04', 'P06', 'P02'])

ref('r09-bulk-remove-each', MI, [
    ('''        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()
            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
            .unzip();

        self.bands.par_iter_mut()
            .for_each(|band| {
                sigs.iter().zip(removed_ids.iter())
                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        sigs''', '''        let mut sigs = Vec::new();
        for id in ids.iter() {
            if let Some(sig) = self.remove(id) {
                sigs.push(sig);
            }
        }
        sigs'''),
], ['P04', 'P06', 'P02'])

ref('r10-par-insert-index', MI, [
    ('''            for item in signatures.iter().zip(ids.iter()) {
                let hashes = item.0;
                let id = item.1.clone();
                band.insert(id, hashes);
            }''', '''            for (i, id) in ids.iter().enumerate() {
                if i < signatures.len() {
                    band.insert(id.clone(), &signatures[i]);
                }
            }'''),
    ('''        for id_hash in ids.into_iter().zip(signatures.into_iter()) {
            self.id_signatures.insert(id_hash.0, id_hash.1);
        }''', '''        self.id_signatures.extend(ids.into_iter().zip(signatures));'''),
], ['P05', 'P02', 'P04'])

ref('r11-band-remove-retain', MI, [
    ('''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => {
                ids.remove(id);
                if ids.is_empty() {
                    self.hash_table.remove(&band_key);
                }
            }
            None => (),
        }''', '''        let emptied = if let Some(ids) = self.hash_table.get_mut(&band_key) {
            ids.remove(id);
            ids.is_empty()
        } else {
            false
        };
        if emptied {
            self.hash_table.remove(&band_key);
        }'''),
], ['P06', 'P02', 'P04'])

ref('r12-topk-truncate', MI, [
    ('''        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()''', '''        ids_distances.truncate(k);
        ids_distances'''),
], ['P03', 'P01'])

ref('r13-topk-take', MI, [
    ('''        ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()''', '''        ids_distances.into_iter().take(k).collect()'''),
], ['P03', 'P01'])

ref('r14-new-index-map', MI, [
    ('''        let build_hasher = RandomState::new();
        let mut bands = Vec::new();
        for i in 0..num_bands {
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new(start, end, build_hasher.clone()));
        }
        let mut hash_table = HashMap::with_hasher(ahash::RandomState::new());
        hash_table.reserve(1000);''', '''        let build_hasher = RandomState::new();
        let bands: Vec<_> = (0..num_bands)
            .map(|i| {
                let start = i * band_width;
                MinHashBand::<T, Id, C>::new(start, start + band_width, build_hasher.clone())
            })
            .collect();
        let mut hash_table = HashMap::with_hasher(ahash::RandomState::new());
        hash_table.reserve(1000);'''),
], ['P01', 'P02', 'P06', 'P04'])

ref('r15-query-one-fold', MI, [
    ('''        match_ids.into_iter()
            .map(|id| (id, self.id_signatures.get(&id)))
            .filter(|(id, sig)| sig.is_some())
            .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())''', '''        let mut best: Option<(&Id, f64)> = None;
        for id in match_ids {
            if let Some(sig) = self.id_signatures.get(id) {
                let similarity = compute_minhash_similarity(sig, query_signature);
                if similarity >= self.threshold && best.map_or(true, |b| similarity >= b.1) {
                    best = Some((id, similarity));
                }
            }
        }
        best'''),
], ['P01', 'P03'])

MO = 'gaoya/src/minhash/mod.rs'
ref('r16-similarity-loop', MO, [
    ('''    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)''', '''    let matches: u64 = min_hashes_2
        .iter()
        .zip(min_hashes_1.iter())
        .map(|(a, b)| if a == b { 1u64 } else { 0 })'''),
], ['P09', 'P01', 'P03'])

ref('r17-similarity-filter-count', MO, [
    ('''    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();''', '''    let matches = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .filter(|(a, b)| a == b)
        .count();'''),
], ['P09', 'P01', 'P03'])

ref('r18-similarity-index-loop', MO, [
    ('''    let matches: u64 = min_hashes_1
        .iter()
        .zip(min_hashes_2.iter())
        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)
        .sum();''', '''    let mut matches: u64 = 0;
    for i in 0..num_hashes {
        if min_hashes_1[i] == min_hashes_2[i] {
            matches += 1;
        }
    }'''),
], ['P09', 'P01', 'P03'])
