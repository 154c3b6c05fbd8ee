"""Behaviour-preserving edits: Python layer, native classes, tokenizers, hashers."""
R = []
PM, PS, PL = 'py-gaoya/src/min_hash.rs', 'py-gaoya/src/sim_hash.rs', 'py-gaoya/src/lib.rs'
YM, YS = 'py-gaoya/gaoya/minhash.py', 'py-gaoya/gaoya/simhash.py'
TK = 'gaoya/src/text/tokenizers.rs'
SH, HS = 'gaoya/src/simhash/sim_hasher.rs', 'gaoya/src/minhash/hashers.rs'
MI = 'gaoya/src/minhash/minhash_index.rs'


def ref(*a):
    R.append(a)


# ---- native classes
ref('q01-doc2signature', PM, [('''            pub fn insert_document(&mut self, id: i64, doc: &str) {
                if self.lowercase {
                    let doc = doc.to_lowercase();
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc.as_str()))
                } else {
                    self.inner
                        .insert(id, self.tokenize_and_minhash(doc))
                }
            }
''', '''            fn doc2signature(&self, doc: &str) -> Vec<$type> {
                if self.lowercase {
                    self.tokenize_and_minhash(&doc.to_lowercase())
                } else {
                    self.tokenize_and_minhash(doc)
                }
            }

            pub fn insert_document(&mut self, id: i64, doc: &str) {
                let signature = self.doc2signature(doc);
                self.inner.insert(id, signature);
            }
'''), ('''                .map(|doc| {
                    if self.lowercase {
                        let doc = doc.to_lowercase();
                        self.tokenize_and_minhash(doc.as_str())
                    } else {
                        self.tokenize_and_minhash(doc)
                    }
                })''', '''                .map(|doc| self.doc2signature(doc))''')], ['P20'])
ref('q02-new-once', PM, [('''                if let (Some(num_bands), Some(band_width)) = (num_bands, band_width) {
                    let index = $name {
                        inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                        min_hash: $minhash::new(num_bands * band_width),
                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                        lowercase: lowercase.unwrap_or(false),
                    };
                    return Ok(index);
                }
                if let Some(num_hashes) = num_hashes {
                    let (num_bands, band_width) = calculate_minhash_params(jaccard_threshold, num_hashes);
                    let index = $name {
                        inner: gaoya::minhash::MinHashIndex::<_,_, $container_type>::new_index(num_bands, band_width, jaccard_threshold),
                        min_hash: $minhash::new(num_bands * band_width),
                        tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                        lowercase: lowercase.unwrap_or(false),
                    };
                    return Ok(index);
                }
                return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified") );
''', '''                let (bands, width) = match (num_bands, band_width, num_hashes) {
                    (Some(b), Some(w), _) => (b, w),
                    (_, _, Some(n)) => calculate_minhash_params(jaccard_threshold, n),
                    _ => return Err(PyValueError::new_err("Either (num_bands, band_width) or num_hashes must be specified")),
                };
                Ok($name {
                    inner: gaoya::minhash::MinHashIndex::<_, _, $container_type>::new_index(bands, width, jaccard_threshold),
                    min_hash: $minhash::new(bands * width),
                    tokenizer: TokenizerSpecification::new(analyzer.unwrap_or("word"), ngram_range),
                    lowercase: lowercase.unwrap_or(false),
                })
''')], ['P20'])
ref('q03-bulk-threshold', PM, [('''                if ids.len() < 100 { // TODO: find a reasonable threshold
                    for (id, doc) in ids.iter().zip(docs.iter()) {
                        self.insert_document(*id, doc)
                    }
                } else {''', '''                if ids.len() < 64 {
                    for (id, doc) in ids.into_iter().zip(docs) {
                        self.insert_document(id, doc);
                    }
                } else {''')], ['P20'])
ref('q04-bulk-tokens-loop', PM, [('''                for id_tokens in ids.iter().zip(tokens.iter()) {
                    self.inner.insert(
                        *id_tokens.0,
                        self.min_hash.create_signature(id_tokens.1.iter()),
                    );
                }''', '''                for (i, doc) in tokens.iter().enumerate() {
                    let signature = self.min_hash.create_signature(doc.iter());
                    self.inner.insert(ids[i], signature);
                }''')], ['P20'])
ref('q05-query-loop', PM, [('''                self.inner
                    .query_owned(&signature)
                    .into_iter()
                    .collect()
''', '''                let mut found = Vec::new();
                for id in self.inner.query_owned(&signature) {
                    found.push(id);
                }
                found
''')], ['P20'])
ref('q06-spec', PL, [('''                Some(range) => {
                    if range.0 == range.1 {
                        CharShingle((range.0, None))
                    } else {
                        CharShingle((range.0, Some(range.1)))
                    }
                }
                None => {
                    CharShingle((3, Some(4)))
                }''', '''                Some((from, to)) if from == to => CharShingle((from, None)),
                Some((from, to)) => CharShingle((from, Some(to))),
                None => CharShingle((3, Some(4))),''')], ['P20'])
ref('q07-spec-helper', PL, [('''    pub fn new(name: &str, range: Option<(usize, usize)>) -> Self {
        if name == "char" {
            match range {
                Some(range) => {
                    if range.0 == range.1 {
                        CharShingle((range.0, None))
                    } else {
                        CharShingle((range.0, Some(range.1)))
                    }
                }
                None => {
                    CharShingle((3, Some(4)))
                }
            }
        } else {
            match range {
                Some(range) => {
                    if range.0 == range.1 {
                        WhiteSpaceShingle((range.0, None))
                    } else {
                        WhiteSpaceShingle((range.0, Some(range.1)))
                    }
                }
                None => {
                    WhiteSpace()
                }
            }

        }
    }''', '''    fn sizes(range: (usize, usize)) -> (usize, Option<usize>) {
        let to = if range.0 == range.1 { None } else { Some(range.1) };
        (range.0, to)
    }

    pub fn new(name: &str, range: Option<(usize, usize)>) -> Self {
        match (name, range) {
            ("char", Some(range)) => CharShingle(Self::sizes(range)),
            ("char", None) => CharShingle((3, Some(4))),
            (_, Some(range)) => WhiteSpaceShingle(Self::sizes(range)),
            (_, None) => WhiteSpace(),
        }
    }''')], ['P20'])
ref('q08-sim-query', PS, [('''                let signature = self.doc2signature(doc);
                self.inner
                    .query(&signature)
                    .into_iter()
                    .map(|id_ref| id_ref.clone())
                    .collect()''', '''                let signature = self.doc2signature(doc);
                self.inner.query(&signature).into_iter().copied().collect()''')], ['P20'])
ref('q09-sim-bulk', PS, [('''                if ids.len() < 100 {
                    for (id, doc) in ids.iter().zip(docs.iter()) {
                        self.insert_document(*id, doc)
                    }
                } else {
                    let signatures = docs
                        .par_iter()
                        .map(|doc| self.doc2signature(doc))
                        .collect();
                    self.inner.par_bulk_insert(ids, signatures);
                }''', '''                let signatures = self.par_bulk_doc2signatures(docs);
                self.inner.par_bulk_insert(ids, signatures);''')], ['P20'])
# ---- Python
ref('q20-py-guard', YM, [('''        if callable(self.analyzer):
            if return_similarity:
                return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))
            else:
                return self.minhash_index.query_tokens(self.analyzer(doc))
        else:
            if return_similarity:
                return self.minhash_index.query_return_similarity(doc)
            else:
                return self.minhash_index.query(doc)
''', '''        if callable(self.analyzer):
            tokens = self.analyzer(doc)
            if return_similarity:
                return self.minhash_index.query_tokens_return_similarity(tokens)
            return self.minhash_index.query_tokens(tokens)
        if return_similarity:
            return self.minhash_index.query_return_similarity(doc)
        return self.minhash_index.query(doc)
''')], ['P20'])
ref('q21-py-pick-method', YM, [('''        if callable(self.analyzer):
            if return_similarity:
                return self.minhash_index.query_tokens_return_similarity(self.analyzer(doc))
            else:
                return self.minhash_index.query_tokens(self.analyzer(doc))
        else:
            if return_similarity:
                return self.minhash_index.query_return_similarity(doc)
            else:
                return self.minhash_index.query(doc)
''', '''        index = self.minhash_index
        if callable(self.analyzer):
            method = index.query_tokens_return_similarity if return_similarity else index.query_tokens
            return method(self.analyzer(doc))
        method = index.query_return_similarity if return_similarity else index.query
        return method(doc)
''')], ['P20'])
ref('q22-py-map', YM, [('''            analyzed_docs = [self.analyzer(doc) for doc in docs]
            if return_similarity:''', '''            analyzed_docs = list(map(self.analyzer, docs))
            if return_similarity:''')], ['P20'])
ref('q23-py-loop', YM, [('''            tokens = [self.analyzer(doc) for doc in docs]
            self''', '''            tokens = []
            for doc in docs:
                tokens.append(self.analyzer(doc))
            self''')], ['P20'])
ref('q24-py-helper', YM, [('''            tokens = [self.analyzer(doc) for doc in docs]
            self''', '''            tokens = self._analyze(docs)
            self'''), ('''    def remove(self, id: int):''', '''    def _analyze(self, docs):
        return [self.analyzer(doc) for doc in docs]

    def remove(self, id: int):''')], ['P20'])
ref('q25-py-constants', YM, [('''        if hash_size not in [8, 16, 32, 64]:''', '''        supported = (8, 16, 32, 64)
        if hash_size not in supported:'''), ('''        if jaccard_threshold < 0.0 or jaccard_threshold > 1.0:''', '''        if not 0.0 <= jaccard_threshold <= 1.0:''')], ['P20'])
ref('q26-py-getattr', YM, [('''        type = constructors[hash_size][id_container]
        self.minhash_index = type(jaccard_threshold''', '''        by_container = constructors[hash_size]
        index_class = by_container[id_container]
        self.minhash_index = index_class(jaccard_threshold''')], ['P20'])
ref('q27-py-sim-dict', YS, [('''        if hash_size == 64:
            self.index = s.SimHash64StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)
        else:
            self.index = s.SimHash128StringIntIndex(num_blocks, hamming_distance, analyzer, lowercase, ngram_range)''', '''        constructors = {64: s.SimHash64StringIntIndex, 128: s.SimHash128StringIntIndex}
        self.index = constructors[hash_size](num_blocks, hamming_distance, analyzer, lowercase, ngram_range)''')], ['P20'])
ref('q28-py-kwargs', YM, [('''        self.minhash_index = type(jaccard_threshold, num_bands, band_size, num_hashes, analyzer, lowercase, ngram_range)''', '''        self.minhash_index = type(jaccard_threshold=jaccard_threshold, num_bands=num_bands, band_width=band_size,
                                  num_hashes=num_hashes, analyzer=analyzer, lowercase=lowercase, ngram_range=ngram_range)''')], ['P20'])
ref('q29-py-flag', YM, [('''        if callable(self.analyzer):
            self.minhash_index.insert_tokens(id, self.analyzer(doc))
        else:
            self.minhash_index.insert_document(id, doc)''', '''        if not callable(self.analyzer):
            self.minhash_index.insert_document(id, doc)
            return
        self.minhash_index.insert_tokens(id, self.analyzer(doc))''')], ['P20'])
ref('q30-py-genexp', YM, [('''            analyzed_docs = [self.analyzer(doc) for doc in docs]
            if return_similarity:''', '''            analyzed_docs = list(self.analyzer(d) for d in docs)
            if return_similarity:''')], ['P20'])
# ---- tokenizers
ref('q40-separator', TK, [('''pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())''', '''fn is_separator(c: char) -> bool {
    c.is_ascii_whitespace() || c.is_ascii_punctuation()
}

pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(is_separator)''')], ['P21', 'P20'])
ref('q41-boxed-calls', TK, [('''    Box::new(text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty()))''', '''    Box::new(whitespace_split(text))''')], ['P21'])
ref('q42-len', TK, [('''        .filter(|&x| !x.is_empty())
}''', '''        .filter(|word| word.len() > 0)
}''')], ['P21'])
ref('q43-filter-map', TK, [('''        .filter(|&x| !x.is_empty())
}''', '''        .filter_map(|word| if word.is_empty() { None } else { Some(word) })
}''')], ['P21'])
ref('q44-tokens-loop', TK, [('''    Shingles::new(tokens.as_slice(), size)
        .into_iter().map(|tokens| tokens.join(""))
        .collect_vec()
        .into_iter()''', '''    let mut shingles = Vec::new();
    for shingle in Shingles::new(tokens.as_slice(), size) {
        shingles.push(shingle.join(""));
    }
    shingles.into_iter()''')], ['P21'])
ref('q45-tokens-concat', TK, [('''        .into_iter().map(|tokens| tokens.join(""))
        .collect_vec()''', '''        .map(|tokens| tokens.concat())
        .collect::<Vec<String>>()''')], ['P21'])
ref('q46-tokens-windows', TK, [('''    Shingles::new(tokens.as_slice(), size)
        .into_iter().map(|tokens| tokens.join(""))''', '''    tokens.windows(size).map(|tokens| tokens.join(""))''')], ['P21'])
ref('q47-matches', TK, [('''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())''', '''    text
        .split(|c: char| matches!(c, ' ' | '\\t' | '\\n' | '\\r' | '\\x0C') || c.is_ascii_punctuation())''')], ['P21'])
# ---- hashers
ref('q50-sip-finish', SH, [('''        let mut sip = SipHasher::new_with_keys(self.key1, self.key2);
        item.hash(&mut sip);
        sip.finish()''', '''        let (k1, k2) = (self.key1, self.key2);
        let mut state = SipHasher::new_with_keys(k1, k2);
        item.hash(&mut state);
        let h = state.finish();
        h''')], ['P12'])
ref('q51-sip-helper', SH, [('''        let mut sip = SipHasher128::new_with_keys(self.key1, self.key2);
        item.hash(&mut sip);
        sip.finish128().as_u128()''', '''        let mut sip = self.start();
        item.hash(&mut sip);
        let h = sip.finish128();
        (h.h2 as u128) << 64 | h.h1 as u128'''), ('''impl SimSipHasher128 {''', '''impl SimSipHasher128 {
    fn start(&self) -> SipHasher128 { SipHasher128::new_with_keys(self.key1, self.key2) }
''')], ['P12'])
ref('q52-sha-update', HS, [('''        let mut sha = Sha1::new();
        sha.write(self.bytes.as_slice());
        let result = sha.finalize();
        u64::from_be_bytes(result[0..8].try_into().unwrap())''', '''        let result = Sha1::digest(&self.bytes);
        let mut h = 0u64;
        for i in 0..8 {
            h = (h << 8) | result[i] as u64;
        }
        h''')], ['P12'])
ref('q53-sha-extend', HS, [('''        self.bytes.extend_from_slice(bytes);''', '''        for b in bytes {
            self.bytes.push(*b);
        }''')], ['P12'])
ref('q54-sha-extend2', HS, [('''        self.bytes.extend_from_slice(bytes);''', '''        self.bytes.extend(bytes.iter().copied());''')], ['P12'])
# ---- small accessors
ref('q60-band-sizes', MI, [('''        let band_sizes: Vec<_> = self.bands.iter()
            .map(|band| band.hash_table.len())
            .collect();
        let max_size = band_sizes.iter().max().unwrap();
        let min_size = band_sizes.iter().min().unwrap();
        BandStats {
            min_size: *min_size,
            max_size: *max_size,
            sizes: band_sizes
        }''', '''        let mut sizes = Vec::with_capacity(self.bands.len());
        for band in &self.bands {
            sizes.push(band.hash_table.len());
        }
        BandStats {
            min_size: sizes.iter().copied().min().unwrap(),
            max_size: sizes.iter().copied().max().unwrap(),
            sizes,
        }''')], ['P06'])
ref('q61-query-index', MI, [('''        match self.id_signatures.get(id) {
            Some(signature) => {
                self::MinHashIndex::query(self, signature)
            }
            None => HashSet::new()''', '''        match self.get_signature(id) {
            Some(signature) => MinHashIndex::query(self, signature),
            None => HashSet::default()''')], ['P01', 'P02', 'P03', 'P17'])
