"""Behaviour-preserving edits, sixth set: containers, string index, tokenizers, hashers, Python layer."""
R = []
I = 'gaoya/src/minhash/id_container.rs'
N = 'gaoya/src/minhash/string_index.rs'
K = 'gaoya/src/text/tokenizers.rs'
A = 'gaoya/src/minhash/super_min_hash.rs'
B = 'gaoya/src/simhash/mod.rs'
G = 'gaoya/src/simhash/sim_hasher.rs'
F = 'gaoya/src/minhash/min_hasher64.rs'
E = 'gaoya/src/minhash/hashers.rs'
Y = 'py-gaoya/src/min_hash.rs'
D = 'gaoya/src/minhash/mod.rs'
T = 'gaoya/src/text/multi_shingles.rs'
OF = {I: ['P07'], N: ['P19'], K: ['P21', 'P16'], A: ['P08'], B: ['P15'], G: ['P12'], F: ['P08'], E: ['P12', 'P08'], Y: ['P20'], D: ['P09', 'P10', 'P11'], T: ['P16']}


def ref(id, f, *edits):
    R.append((id, f, list(edits), OF[f]))


ref('f01-vec-retain-one', I, ('''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }''', '''        let found = self.vec.iter().position(|x| x == item);
        match found {
            Some(index) => {
                let last = self.vec.len() - 1;
                self.vec.swap(index, last);
                self.vec.pop();
            }
            None => {}
        }'''))
ref('f02-vec-remove', I, ('''        if let Some(index) =  self.vec.iter().position(|x| x == item) {
            self.vec.swap_remove(index);
        }''', '''        for index in 0..self.vec.len() {
            if &self.vec[index] == item {
                self.vec.remove(index);
                return;
            }
        }'''))
ref('f03-copy-insert', I, ('        set.extend(self.set.iter().cloned());', '        for item in &self.set {\n            set.insert(item.clone());\n        }'))
ref('f04-copy-for-each', I, ('        set.extend(self.vec.iter())\n', '        self.vec.iter().for_each(|item| {\n            set.insert(item);\n        })\n'))
ref('f05-set-take', I, ('        self.set.remove(item);', '        if self.set.contains(item) {\n            self.set.remove(item);\n        }'))
ref('f06-default-new', I, ('            set: HashSet::new()', '            set: Default::default()'), ('            vec: Vec::new()', '            vec: vec![]'))
ref('f07-set-replace', I, ('        self.set.insert(item);', '        if !self.set.contains(&item) {\n            self.set.insert(item);\n        }'))
ref('f10-next-id', N, ('''        self.doc_id += 1;
        self.doc_map.insert(self.doc_id, text);
        self.lsh_index.insert(self.doc_id, min_hashes);''', '''        let id = self.doc_id + 1;
        self.lsh_index.insert(id, min_hashes);
        self.doc_map.insert(id, text);
        self.doc_id = id;'''))
ref('f11-helper', N, ('''        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));
''', '''        let min_hashes = self.signature_of(&text);
'''), ('''        let min_hashes = self.min_hash.create_signature(whitespace_split(text));
''', '''        let min_hashes = self.signature_of(text);
'''), ('''    pub fn query(&self, text: &str)''', '''    fn signature_of(&self, text: &str) -> Vec<u64> {
        self.min_hash.create_signature(whitespace_split(text))
    }

    pub fn query(&self, text: &str)'''))
ref('f12-query-index', N, ('ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', 'ids.into_iter().filter_map(|id| self.doc_map.get(id)).collect()'))
ref('f13-lines-if-let', N, ('''            match line_result {
                Ok(line) => self.insert(line),
                Err(e) => (),
            }''', '''            if let Ok(line) = line_result {
                self.insert(line);
            }'''))
ref('f14-lines-flatten', N, ('''        for line_result in reader.lines() {
            match line_result {
                Ok(line) => self.insert(line),
                Err(e) => (),
            }
        }''', '''        for line in reader.lines().filter_map(|line| line.ok()) {
            self.insert(line);
        }'''))
ref('f15-open-question', N, ('''        match File::open(file_name) {
            Ok(file) => {
                let current_size = self.size();
                let mut reader: BufReader<File> = BufReader::new(file);
                self.load_from_lines(&mut reader);
                let new_count = self.size() - current_size;
                Ok(new_count)
            }
            Err(e) => Err(e),
        }''', '''        let file = File::open(file_name)?;
        let before = self.size();
        self.load_from_lines(&mut BufReader::new(file));
        Ok(self.size() - before)'''))
ref('f16-par-base', N, ('''                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))''', '''                    .map(|(offset, line)| (self.doc_id + 1 + offset as u64, line.unwrap()))'''),
    ('''                self.doc_id += lines.len() as u64;
                for line in lines {
                    self.doc_map.insert(line.0, line.1);
                }''', '''                self.doc_id += lines.len() as u64;
                self.doc_map.extend(lines);'''))
SEP = '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty())
'''
ref('f20-separator-fn', K, (SEP, '''    text.split(is_separator).filter(|token| !token.is_empty())
'''), ('''pub fn whitespace_split<''', '''fn is_separator(c: char) -> bool {
    c.is_ascii_whitespace() || c.is_ascii_punctuation()
}

pub fn whitespace_split<'''))
ref('f21-len', K, (SEP, SEP.replace('.filter(|&x| !x.is_empty())', '.filter(|x| x.len() > 0)')))
ref('f22-boxed', K, ('''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty()))''', '''    let tokens = whitespace_split(text);
    Box::new(tokens)'''))
ref('f23-tokens', K, ('''    Shingles::new(tokens.as_slice(), size)
        .into_iter().map(|tokens| tokens.join(""))
        .collect_vec()
        .into_iter()''', '''    let joined: Vec<String> = Shingles::new(tokens.as_slice(), size)
        .map(|words| words.concat())
        .collect();
    joined.into_iter()'''))
ref('f30-super-min', A, ('''                let x = minhash[j].min(r + p[j] as f32);
                minhash[j] = x;''', '''                let candidate = r + p[j] as f32;
                if candidate < minhash[j] {
                    minhash[j] = candidate;
                }'''))
ref('f31-super-hash', A, ('''            let mut hasher = self.build_hasher.build_hasher();
            item.hash(&mut hasher);
            let h = hasher.finish();
            let mut rng = StdRng::seed_from_u64(h);''', '''            let mut rng = StdRng::seed_from_u64(self.build_hasher.hash_one(&item));'''))
ref('f32-super-iter', A, ('''            for j in (0..self.num_hashes) {
                let r = rand_range.sample(&mut rng);
                let x = minhash[j].min(r + p[j] as f32);
                minhash[j] = x;
            }''', '''            for (slot, position) in minhash.iter_mut().zip(p.iter()) {
                let r = rand_range.sample(&mut rng);
                *slot = slot.min(r + *position as f32);
            }'''))
ref('f40-hamming-let', B, ('''                (self ^ rhs).count_ones() as usize''', '''                let difference = *self ^ *rhs;
                <$T>::count_ones(difference) as usize'''))
ref('f41-bits-const', B, ('''                mem::size_of::<$T>() * 8
            }
        }''', '''                <$T>::BITS as usize
            }
        }'''))
ref('f42-hamming-trait', B, ('''                (self ^ rhs).count_ones() as usize''', '''                SimHashBits::count_ones(*self ^ *rhs)'''))
ref('f43-angle', B, ('self.hamming_distance(rhs) as f64 * (PI /  Self::bit_length() as f64)', '{\n            let per_bit = PI / Self::bit_length() as f64;\n            per_bit * self.hamming_distance(rhs) as f64\n        }'))
ref('f50-h64-helper', F, ('''        let hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match hashes.len() {''', '''        let hashes: Vec<u64> = iter.map(|item| self.hash_token(item)).collect();

        match hashes.len() {'''), ('''    fn get_min_hashes_into_vec<''', '''    fn hash_token<U: Hash>(&self, item: U) -> u64 {
        let mut hasher = self.build_hasher.build_hasher();
        item.hash(&mut hasher);
        hasher.finish()
    }

    fn get_min_hashes_into_vec<'''))
ref('f51-h64-index', F, ('''            len if len > 0 => self
                .a.iter()
                .zip(self.b.iter())
                .map(|ab| {
                    hashes
                        .iter()
                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
                })
                .collect(),
            _ => vec![0; self.num_hashes],''', '''            0 => vec![0; self.num_hashes],
            _ => (0..self.num_hashes)
                .map(|i| {
                    let (a, b) = (self.a[i], self.b[i]);
                    hashes
                        .iter()
                        .map(|hash| a.wrapping_mul(*hash).wrapping_add(b) % MERSENNE_PRIME)
                        .fold(u64::MAX, |x, y| if y < x { y } else { x })
                })
                .collect(),'''))
ref('f52-h64-new', F, ('''        MinHasher64V1 {
            build_hasher,
            a: (0..num_hashes)
                .map(|_| rand_range1.sample(&mut rng))
                .collect(),
            b: (0..num_hashes)
                .map(|_| rand_range2.sample(&mut rng))
                .collect(),
            num_hashes,
        }''', '''        let a: Vec<u64> = (0..num_hashes)
            .map(|_| rand_range1.sample(&mut rng))
            .collect();
        let mut b = Vec::with_capacity(num_hashes);
        for _ in 0..num_hashes {
            b.push(rand_range2.sample(&mut rng));
        }
        MinHasher64V1 { build_hasher, a, b, num_hashes }'''))
ref('f53-h64-min-by', F, ('''                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()
                        .unwrap()
                })''', '''                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .reduce(|x, y| x.min(y))
                        .unwrap()
                })'''))
ref('f60-py-lower', Y, ('''                if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc.as_str()))
                } else {
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc))
                }''', '''                let signature = if self.lowercase {
                    self.tokenize_and_minhash(&doc.to_lowercase())
                } else {
                    self.tokenize_and_minhash(doc)
                };
                self.inner.insert(id, signature);'''))
ref('f61-py-helper', Y, ('''                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })
                .collect()
            }
''', '''                    match self.lowercase {
                        true => self.tokenize_and_minhash(doc.to_lowercase().as_str()),
                        false => self.tokenize_and_minhash(doc),
                    }
                })
                .collect()
            }
'''))
ref('f62-py-bulk-tokens', Y, ('''                for id_tokens in ids.iter().zip(tokens.iter()) {
                    self.inner.insert(
                        *id_tokens.0,
                        self.min_hash.create_signature(id_tokens.1.iter()),
                    );
                }''', '''                for (id, words) in ids.into_iter().zip(tokens) {
                    let signature = self.min_hash.create_signature(words.iter());
                    self.inner.insert(id, signature);
                }'''))
ref('f63-py-small', Y, ('''                    for (id, doc) in ids.iter().zip(docs.iter()) {
                        self.insert_document(*id, doc)
                    }''', '''                    ids.into_iter()
                        .zip(docs)
                        .for_each(|(id, doc)| self.insert_document(id, doc));'''))
ref('f70-jaccard', D, ('''    let intersection_len = h1.intersection(&h2).count();
    intersection_len as f32 / (h1.len() + h2.len() - intersection_len) as f32''', '''    let common = h1.iter().filter(|item| h2.contains(*item)).count();
    let union = h1.len() + h2.len() - common;
    common as f32 / union as f32'''))
ref('f71-jaccard-collect', D, ('''    let h1 = HashSet::<U>::from_iter(iter_1);
    let h2 = HashSet::<U>::from_iter(iter_2);''', '''    let h1: HashSet<U> = iter_1.collect();
    let mut h2 = HashSet::new();
    h2.extend(iter_2);'''))
ref('f72-proba', D, ('''    let proba = |b, r| {
        1.0 - (1.0 - s.powf(r)).powf(b)
    };''', '''    let proba = |b: f64, r: f64| {
        let miss_one_band = 1.0 - s.powf(r);
        1.0 - miss_one_band.powf(b)
    };'''))
ref('f73-centroid-counts', D, ('''    for signature in signatures.iter() {
        for (i, hash) in signature.iter().enumerate() {
            let count = hash_counters[i].entry(*hash).or_insert(1);
            *count += 1;
        }

    }''', '''    for signature in signatures {
        for (counter, hash) in hash_counters.iter_mut().zip(signature.iter()) {
            *counter.entry(*hash).or_insert(0) += 1;
        }
    }'''))
ref('f74-centroid-map', D, ('''    let mut centroid = Vec::with_capacity(signature_len);
''', ''), ('''    for counter in hash_counters {
        let most_frequent_hash = counter.into_iter()
            .max_by(|x, y| x.1.cmp(&y.1))
            .unwrap().0;
        centroid.push(most_frequent_hash);
    }

    centroid
''', '''    hash_counters
        .into_iter()
        .map(|counter| counter.into_iter().max_by_key(|&(_, count)| count).unwrap().0)
        .collect()
'''))
ref('f80-str-shingle', T, ('''        self.size += 1;
        if self.size > self.to_size || pos_end == 0 {
            self.size = self.from_size;
            if pos_next != 0 {
                self.data = &self.data[pos_next..];
            } else {
                self.data = &self.data[self.data.len()..];
            }
        }
''', '''        let wider = self.size + 1;
        if pos_end == 0 || wider > self.to_size {
            let rest = if pos_next == 0 { self.data.len() } else { pos_next };
            self.data = &self.data[rest..];
            self.size = self.from_size;
        } else {
            self.size = wider;
        }
'''))
