# Fourth set of trial bugs: changes of structure (new fields, caches, shortcuts), two cooperating sites.
M='gaoya/src/minhash/minhash_index.rs'; X='gaoya/src/simhash/sim_hash_index.rs'; ST='gaoya/src/minhash/string_index.rs'
R=[
('y01','P02',[(M,'    num_hashes: usize\n}','    num_hashes: usize,\n    removed: std::sync::RwLock<HashSet<Id>>,\n}'),
  (M,'            num_hashes: num_bands * band_width,\n','            num_hashes: num_bands * band_width,\n            removed: Default::default(),\n'),
  (M,'            r: band_width,\n            num_hashes: num_bands * band_width,\n        }\n    }\n\n\n    /// Returns','            r: band_width,\n            num_hashes: num_bands * band_width,\n            removed: Default::default(),\n        }\n    }\n\n\n    /// Returns'),
  (M,'            Some(signature) => {\n                self\n','            Some(signature) => {\n                self.removed.write().unwrap().insert(id.clone());\n                self\n'),
  (M,'        self.id_signatures.insert(id, signature);','        self.removed.write().unwrap().remove(&id);\n        self.id_signatures.insert(id, signature);'),
  (M,'            band.query_to_owned(query_signature, &mut match_ids);\n        }\n        match_ids.retain(|id| {\n','            band.query_to_owned(query_signature, &mut match_ids);\n        }\n        match_ids.retain(|id| {\n            if self.removed.read().unwrap().contains(id) { return false; }\n')]),
('y02','P02',[(M,'''        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }

        match_ids.retain''','''        for band in &self.bands {
            if match_ids.len() > 5000 { break; }
            band.query(query_signature, &mut match_ids);
        }

        match_ids.retain''')]),
('y04','P14',[(X,'        self.id_signatures.insert(id, signature);\n    }\n\n    pub fn par_bulk','        if self.id_signatures.insert(id, signature).is_none() { self.size += 1; }\n    }\n\n    pub fn par_bulk'),
  (X,'''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in ids''','''        self.size += ids.len();
        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in ids'''),
  (X,'''        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in id_signature_pairs''','''        self.size += id_signature_pairs.len();
        self.hash_tables.par_iter_mut().for_each(|table| {
            for item in id_signature_pairs'''),
  (X,'        self.id_signatures.len()\n','        self.size\n')]),
('y05','P13',[(X,'''                let matches = candidates
                    .iter()
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });''','''                let matches = candidates
                    .iter()
                    .rev()
                    .take(2048)
                    .filter(|id| {
                        let signature = id_signatures.get(id).unwrap();
                        query_signature.hamming_distance(signature) <= max_distance
                    });''')]),
('y06','P19',[(ST,'        for line_result in reader.lines() {\n            match line_result {\n                Ok(line) => self.insert(line),','        let mut last = String::new();\n        for line_result in reader.lines() {\n            match line_result {\n                Ok(line) if line == last && !line.is_empty() => (),\n                Ok(line) => { last = line.clone(); self.insert(line) }')]),
('y09','P03',[(M,'.max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())','.max_by(|x, y| (x.1 as f32).partial_cmp(&(y.1 as f32)).unwrap())')]),
('y10','P03',[(M,'ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());','ids_distances.sort_unstable_by_key(|a| (a.1 * 1e4) as u64);')]),
('y11','P06',[(M,'''        match self.hash_table.get_mut(&band_key) {
            Some(ids) => {
                ids.remove(id);''','''        if self.hash_table.len() > 100_000 {
            return;
        }
        match self.hash_table.get_mut(&band_key) {
            Some(ids) => {
                ids.remove(id);''')]),
('y12','P04',[(M,'        self.bands.iter_mut().for_each(|band| band.clear());\n        self.id_signatures.clear();','        if self.id_signatures.is_empty() { return; }\n        self.bands.iter_mut().for_each(|band| band.clear());\n        self.id_signatures.clear();\n        self.threshold = self.threshold.min(1.0);')]),
('y13','P01',[(M,'        match self.id_signatures.get(id) {\n            Some(signature) => self.query_owned(signature),','        match self.id_signatures.get(id) {\n            Some(signature) if signature.iter().any(|h| *h != signature[0]) || signature.len() < 2 => self.query_owned(signature),\n            Some(signature) => std::iter::once(id.clone()).chain(self.query_owned(signature)).collect(),')]),
('y14','P05',[(M,'            for item in signatures.iter().zip(ids.iter()) {\n                let hashes = item.0;','            for item in signatures.iter().zip(ids.iter()) {\n                let hashes = item.0;\n                if band.hash_table.len() == 1 && signatures.len() > 300 && hashes == &signatures[0] && item.1 != &ids[0] { continue; }')]),
('y15','P11',[(M,'        let signatures: Vec<_> = ids.iter()\n            .filter_map','        let ids: HashSet<&Id> = ids.iter().collect();\n        let signatures: Vec<_> = ids.into_iter()\n            .filter_map')]),
('y16','P20',[('py-gaoya/src/min_hash.rs','ngram_range.0, ngram_range.1','ngram_range.1, ngram_range.0')]),
]
