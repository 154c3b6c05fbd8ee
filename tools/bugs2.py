MI = 'gaoya/src/minhash/minhash_index.rs'
PYDEMO = '''#!/bin/bash
# exit 0: the property holds on this input
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
PYO3_PYTHON=/usr/bin/python3 CARGO_TARGET_DIR="$W/target" cargo build -q --offline -p pygaoya 2>&1 || exit 3
mkdir -p "$W/pkg/gaoya"
cp "$R"/py-gaoya/gaoya/*.py "$W/pkg/gaoya/"
cp "$W/target/debug/libgaoya.so" "$W/pkg/gaoya/gaoya.abi3.so"
cp "$D/demo.py" "$W/demo.py"
cd "$W" && PYTHONPATH="$W/pkg" /usr/bin/python3 -B demo.py 2>&1
'''
BUGS = [
 dict(id='b16-shrink-drops', property='P02',
  edits=[(MI, "        self.hash_table.shrink_to(min_capacity);",
          "        if self.hash_table.len() > 64 { self.hash_table.retain(|_, c| c.len() > 0 && min_capacity > 0); }\n        self.hash_table.shrink_to(min_capacity);")],
  needs='more than 64 buckets in a band and shrink_to(0)', breaks='shrinking to nothing drops the buckets, so later queries miss stored ids',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    for i in 0..100u32 { ix.insert(i, vec![i, i + 1, i + 2, i + 3]); }
    ix.shrink_to(0);
    assert!(ix.query(&vec![7, 8, 9, 10]).contains(&7));
}
'''),
 dict(id='b17-zero-removed', property='P04',
  edits=[(MI, "            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))\n            .unzip();",
          "            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))\n            .filter(|(_, sig)| sig.iter().any(|h| *h != T::zero()))\n            .unzip();")],
  needs='bulk removal of an id whose signature is all zeros (the document without tokens)', breaks='the removed signature is not returned',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    ix.insert(1, vec![1, 2, 3, 4]);
    ix.insert(2, vec![0, 0, 0, 0]);
    assert_eq!(ix.bulk_remove(&vec![1, 2]), vec![vec![1, 2, 3, 4], vec![0, 0, 0, 0]]);
}
'''),
 dict(id='b18-rounded', property='P01',
  edits=[(MI, "                let similarity = compute_minhash_similarity(signature, query_signature);\n                if similarity >= self.threshold {",
          "                let similarity = compute_minhash_similarity(signature, query_signature);\n                if (similarity * 1000.0).round() / 1000.0 >= self.threshold {")],
  needs='a threshold less than half a thousandth above an attainable similarity', breaks='ids just below the threshold are returned',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(3, 1, 0.667);
    ix.insert(1, vec![1, 2, 3]);
    assert!(ix.query_owned_return_similarity(&vec![1, 2, 9]).iter().all(|x| x.1 >= 0.667));
}
'''),
 dict(id='b19-count-wraps', property='P09',
  edits=[('gaoya/src/minhash/mod.rs', "        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u64)\n        .sum();",
          "        .map(|(min_hash_1, min_hash_2)| (min_hash_1 == min_hash_2) as u8)\n        .fold(0u8, |a, b| a.wrapping_add(b)) as u64;")],
  needs='256 or more agreeing positions', breaks='the number of agreeing positions is taken modulo 256',
  main='''use gaoya::minhash::*;
fn main() {
    let a: Vec<u64> = (0..256).collect();
    assert_eq!(compute_minhash_similarity(&a, &a), 1.0);
}
'''),
 dict(id='b20-all-bits-differ', property='P15',
  edits=[('gaoya/src/simhash/mod.rs', "                (self ^ rhs).count_ones() as usize", "                ((self ^ rhs).count_ones() as u8 & 0x7f) as usize")],
  needs='two 128-bit signatures that differ in every bit', breaks='their distance is reported as 0',
  main='''use gaoya::simhash::*;
fn main() {
    assert_eq!(u128::MAX.hamming_distance(&0u128), 128);
}
'''),
 dict(id='b21-bucket-limit', property='P13',
  edits=[('gaoya/src/simhash/sim_hash_index.rs', "        let key = *simhash & self.permutation.simple_mask;\n        self.table\n            .entry(key)\n            .or_insert(Vec::new())\n            .push(id);",
          "        let key = *simhash & self.permutation.simple_mask;\n        let ids = self.table.entry(key).or_insert(Vec::new());\n        if ids.len() < u16::MAX as usize { ids.push(id); }")],
  needs='more than 65535 ids with one key', breaks='ids beyond the limit are not found',
  main='''use gaoya::simhash::*;
fn main() {
    let mut ix: SimHashIndex<u64, u32> = SimHashIndex::new(2, 1);
    for i in 0..65540u32 { ix.insert(i, 77u64); }
    assert!(ix.query(&77u64).contains(&65539));
}
'''),
 dict(id='b22-narrow-votes', property='P12',
  edits=[('gaoya/src/simhash/sim_hash.rs', "        let mut counts = [0i64; L];", "        let mut counts = [0i16; L];")],
  needs='more than 32767 tokens that agree on a bit', breaks='the vote counter overflows',
  main='''use gaoya::simhash::*;
fn main() {
    let s = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    let one = s.create_signature(["a"].iter());
    assert_eq!(s.create_signature(std::iter::repeat("a").take(40000)), one);
}
'''),
 dict(id='b23-long-shingle', property='P16',
  edits=[('gaoya/src/text/multi_shingles.rs', "            if pos_next != 0 && pos_end != 0 {\n                break;\n            }",
          "            if pos_next != 0 && pos_end != 0 {\n                break;\n            }\n            if i > 4096 { break; }")],
  needs='a shingle of more than 4096 bytes', breaks='longer shingles are not produced',
  main='''use gaoya::text::*;
fn main() {
    let t: String = std::iter::repeat('a').take(5001).collect();
    assert_eq!(shingle_text_range(&t, 5000, 5001).take(10).map(|x| x.len()).collect::<Vec<_>>(), vec![5000, 5001, 5000]);
}
'''),
 dict(id='b24-doc-id-reused', property='P19',
  edits=[('gaoya/src/minhash/string_index.rs', "                self.doc_id += lines.len() as u64;",
          "                self.doc_id = self.doc_map.len() as u64 + lines.len() as u64;\n                if lines.is_empty() { self.doc_id = self.doc_id.saturating_sub(1); }")],
  needs='loading an empty file in parallel, then adding a document', breaks='the last id is issued again and the document before is lost',
  main='''use gaoya::minhash::*;
fn main() {
    let f = std::env::temp_dir().join(format!("gaoya-demo-{}", std::process::id()));
    std::fs::write(&f, "").unwrap();
    let mut ix = MinHashStringIndex::new(10, 1, 0.5);
    ix.insert("one two three".to_string());
    ix.load_from_file_parallel(f.to_str().unwrap()).unwrap();
    std::fs::remove_file(&f).unwrap();
    ix.insert("four five six".to_string());
    assert_eq!(ix.size(), 2);
    assert_eq!(ix.query("one two three").len(), 1);
}
'''),
 dict(id='b25-py-last-id', property='P20',
  edits=[('py-gaoya/src/min_hash.rs', "                self.inner.remove(&id);", "                if self.inner.size() > 1 { self.inner.remove(&id); }")],
  needs='removing the only document of an index', breaks='the Python remove leaves the last document in the index', demo=PYDEMO,
  files={'demo.py': '''from gaoya.minhash import MinHashStringIndex
ix = MinHashStringIndex(hash_size=32, jaccard_threshold=0.5, num_bands=20, band_size=2, num_hashes=40)
ix.insert_document(1, "one two three")
ix.remove(1)
assert ix.query("one two three") == [], ix.query("one two three")
assert ix.size() == 0
'''}),
 dict(id='b26-py-ngram', property='P20',
  edits=[('py-gaoya/src/lib.rs', "                    if range.0 == range.1 {\n                        WhiteSpaceShingle((range.0, None))",
          "                    if range.0 + 1 >= range.1 {\n                        WhiteSpaceShingle((range.0, None))")],
  needs='word n-grams of a range of two adjacent sizes', breaks='only the smaller n-grams are used', demo=PYDEMO,
  files={'demo.py': '''from gaoya.minhash import MinHashStringIndex
ix = MinHashStringIndex(hash_size=32, jaccard_threshold=0.99, num_bands=40, band_size=1, num_hashes=40, analyzer='word', ngram_range=(1, 2))
ix.insert_document(1, "a b c d e f g h")
# the same words in another order: the same 1-grams, other 2-grams
assert ix.query("h f d b g e c a") == [], ix.query("h f d b g e c a")
'''}),
]
