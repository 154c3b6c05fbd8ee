MI = 'gaoya/src/minhash/minhash_index.rs'
BUGS = [
 dict(id='b01-bucket-dropped', property='P06',
  edits=[(MI, "                ids.remove(id);\n                if ids.is_empty() {", "                ids.remove(id);\n                if ids.len() <= 1 {")],
  needs='two or more ids in one bucket, one of them removed', breaks='removing an id drops the bucket although another id is still in it',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    ix.insert(1, vec![1, 2, 3, 4]);
    ix.insert(2, vec![1, 2, 5, 6]);
    ix.insert(3, vec![7, 8, 9, 10]);
    ix.remove(&1);
    assert!(ix.query(&vec![1, 2, 11, 12]).contains(&2));
}
'''),
 dict(id='b02-rebind-lost', property='P04',
  edits=[(MI, "            band.insert(id.clone(), &signature);\n        }\n        self.id_signatures.insert(id, signature);",
          "            band.insert(id.clone(), &signature);\n        }\n        self.id_signatures.entry(id).or_insert(signature);")],
  needs='the same id inserted twice with different signatures', breaks='insert does not rebind an id that is already stored',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    ix.insert(1, vec![1, 2, 3, 4]);
    ix.insert(1, vec![5, 6, 7, 8]);
    assert_eq!(ix.remove(&1), Some(vec![5, 6, 7, 8]));
}
'''),
 dict(id='b03-bulk-order', property='P05',
  edits=[(MI, "        for id_hash in ids.into_iter().zip(signatures.into_iter()) {", "        for id_hash in ids.into_iter().zip(signatures.into_iter()).rev() {")],
  needs='an id that occurs twice in one bulk insert', breaks='the first binding wins in a bulk insert',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.9);
    ix.par_bulk_insert(vec![1, 2, 1], vec![vec![1, 2, 3, 4], vec![9, 9, 9, 9], vec![5, 6, 7, 8]]);
    assert_eq!(ix.remove(&1), Some(vec![5, 6, 7, 8]));
}
'''),
 dict(id='b04-topk-cut', property='P03',
  edits=[(MI, "        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());\n",
              "        ids_distances.truncate(std::cmp::max(4 * k, 8));\n        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());\n")],
  needs='more candidates than max(4k, 8)', breaks='top-k drops candidates before sorting them',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    for i in 0..60 { ix.insert(i, vec![1, 2, 100 + i, 200 + i]); }
    ix.insert(99, vec![1, 2, 3, 4]);
    for _ in 0..1 {
        let r = ix.query_top_k(&vec![1, 2, 3, 4], 1);
        // repeat with other hash seeds so that the outcome does not depend on iteration order
        assert_eq!(r[0].0, 99);
    }
    for k in 1..20u32 {
        let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
        for i in 0..60 { ix.insert(i, vec![1, 2, 100 + i, 200 + i]); }
        ix.insert(99 + k, vec![1, 2, 3, 4]);
        assert_eq!(ix.query_top_k(&vec![1, 2, 3, 4], 1)[0].0, 99 + k);
    }
}
'''),
 dict(id='b05-threshold-f32', property='P01',
  edits=[(MI, "                if similarity >= self.threshold {\n                    result.push((id, similarity))", "                if similarity as f32 >= self.threshold as f32 {\n                    result.push((id, similarity))")],
  needs='a threshold just above an attainable similarity', breaks='ids below the threshold are returned when the two round to the same f32',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.500000001);
    ix.insert(1, vec![1, 2, 3, 4]);
    assert!(ix.query_owned_return_similarity(&[1, 2, 8, 9]).is_empty());
}
'''),
 dict(id='b06-short-band', property='P02',
  edits=[(MI, "            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, build_hasher.clone()));",
              "            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(start, end, band_capacity, if i == 0 { build_hasher.clone() } else { RandomState::with_seeds(i as u64, 2, 3, 4) }));"),
         (MI, "        let band_data = &signature[self.band_start..self.band_end];\n        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());\n        match self.hash_table.get(&band_key) {\n            Some(ids) =>  ids.copy_refs_to(match_ids),",
              "        let band_data = &signature[self.band_start..self.band_end];\n        let band_key = BandKey::new(band_data, self.build_ahash.build_hasher());\n        match self.hash_table.get(&band_key) {\n            Some(ids) if ids.len() > 64 && match_ids.len() > 64 => (),\n            Some(ids) =>  ids.copy_refs_to(match_ids),")],
  needs='a query that already gathered more than 64 candidates when it meets another bucket of more than 64 ids', breaks='crowded buckets are skipped',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(2, 2, 0.4);
    for i in 0..80 { ix.insert(i, vec![1, 2, 100 + i, 200 + i]); }
    for i in 100..180 { ix.insert(i, vec![100 + i, 200 + i, 3, 4]); }
    assert_eq!(ix.query(&vec![1, 2, 3, 4]).len(), 160);
}
'''),
 dict(id='b07-vec-remove', property='P07',
  edits=[('gaoya/src/minhash/id_container.rs', "        if let Some(index) = self.vec.iter().position(|x| x == item) {\n            self.vec.swap_remove(index);\n        };",
     "        if let Some(index) = self.vec.iter().position(|x| x == item) {\n            if self.vec.spilled() { self.vec.truncate(index); } else { self.vec.swap_remove(index); }\n        };")],
  needs='a SmallVec container that outgrew its inline array, then a removal that is not of the last id', breaks='removal drops every id behind the removed one',
  main='''use gaoya::minhash::*;
use std::collections::HashSet;
fn main() {
    let mut c: SmallVecContainer<u32, 2> = SmallVecContainer::new();
    for i in 0..6 { c.push(i); }
    c.remove(&2);
    let mut s = HashSet::new();
    c.copy_to(&mut s);
    assert_eq!(s, HashSet::from([0, 1, 3, 4, 5]));
}
'''),
 dict(id='b08-min-after-cut', property='P08',
  edits=[('gaoya/src/minhash/min_hasher.rs', "                                    hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31\n                                })\n                                .min()\n                                .unwrap();\n                            h as $type",
     "                                    (hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31) as $type\n                                })\n                                .min()\n                                .unwrap();\n                            h")],
  needs='a hash width below 32 bits and at least two tokens', breaks='the minimum is taken over truncated values',
  main='''use gaoya::minhash::*;
fn main() {
    // the 8 bit signature is the truncated 32 bit signature of the same hasher parameters
    let (a, b) = (MinHasher8::new(64), MinHasher32::new(64));
    let t = ["a", "b", "c", "d"];
    let x: Vec<u8> = b.create_signature(t.iter()).into_iter().map(|v| v as u8).collect();
    assert_eq!(a.create_signature(t.iter()), x);
}
'''),
 dict(id='b09-proba-equal', property='P10',
  edits=[('gaoya/src/minhash/mod.rs', "        if proba(b1 as f64, r1 as f64) > p {", "        if proba(b1 as f64, r1 as f64) >= p {")],
  needs='a width whose probability equals the desired one exactly', breaks='a width that does not exceed the probability is accepted',
  main='''use gaoya::minhash::*;
fn main() {
    assert_eq!(calculate_minhash_params_with_proba(1.0, 20, 1.0), (20, 1));
}
'''),
 dict(id='b10-vote-tie', property='P12',
  edits=[('gaoya/src/simhash/sim_hash.rs', "            if counts[i] > 0 {", "            if counts[i] >= 0 {")],
  needs='a tie: as many tokens with the bit set as clear (or no token)', breaks='ties set the bit',
  main='''use gaoya::simhash::*;
fn main() {
    let h = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2));
    let e: Vec<u32> = vec![];
    assert_eq!(h.create_signature(e.iter()), 0);
}
'''),
 dict(id='b11-two-blocks', property='P13',
  edits=[('gaoya/src/simhash/permutation.rs', "        let count = num_blocks - diff_bits;", "        let count = std::cmp::max(num_blocks - diff_bits, 2);")],
  needs='radius one less than the number of blocks', breaks='tables keyed on two blocks miss ids that agree on a single block',
  main='''use gaoya::simhash::*;
fn main() {
    let mut ix = SimHashIndex::<u64, u32>::new(4, 3);
    ix.insert(1, 0);
    assert!(ix.query(&((1u64 << 3) | (1 << 20) | (1 << 40))).contains(&1));
}
'''),
 dict(id='b12-bulk-rebind', property='P14',
  edits=[('gaoya/src/simhash/sim_hash_index.rs', "        for id_hash in id_signature_pairs {\n            self.id_signatures.insert(id_hash.0, id_hash.1);", "        for id_hash in id_signature_pairs {\n            self.id_signatures.entry(id_hash.0).or_insert(id_hash.1);")],
  needs='an id bound before or twice in the bulk insert of pairs', breaks='bulk insertion does not rebind',
  main='''use gaoya::simhash::*;
fn main() {
    let mut ix = SimHashIndex::<u64, u32>::new(4, 1);
    ix.par_bulk_insert_pairs(vec![(1, 0), (1, u64::MAX)]);
    assert!(ix.query(&u64::MAX).contains(&1));
}
'''),
 dict(id='b13-char-boundary', property='P16',
  edits=[('gaoya/src/text/multi_shingles.rs', "!(128..192).contains(&b)", "!(129..192).contains(&b)")],
  needs='a character whose UTF-8 encoding contains the byte 0x80', breaks='the byte is taken for a character boundary',
  main='''use gaoya::text::*;
fn main() {
    let v: Vec<String> = shingle_text_range("\\u{c0}bc", 1, 2).map(|s| s.to_string()).collect();
    assert_eq!(v, ["\\u{c0}", "\\u{c0}b", "b", "bc", "c"]);
}
'''),
 dict(id='b14-steal-point', property='P17',
  edits=[('gaoya/src/clustering/clustering_serial.rs', "                .filter(|point| point.cluster.get().is_none())", "                .filter(|point| point.cluster.get() != Some(cluster_id_seq))")],
  needs='a point similar to members of two clusters started by different points, not adjacent in issue order', breaks='points of an earlier cluster are moved to a new one',
  main='''use gaoya::clustering::clustering_serial::*;
use gaoya::clustering::QueryIndex;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
struct Q(HashMap<u32, Vec<ClusterPoint<u32>>>);
impl QueryIndex for Q {
    type Id = ClusterPoint<u32>;
    fn query(&self, id: &ClusterPoint<u32>) -> HashSet<&ClusterPoint<u32>> { self.0[&id.id].iter().collect() }
}
fn main() {
    let p: Vec<ClusterPoint<u32>> = (0..6).map(|i| Rc::new(ClusterPointInner::new(i))).collect();
    let g = |v: &[usize]| v.iter().map(|i| p[*i].clone()).collect::<Vec<_>>();
    let q = Q(HashMap::from([(0, g(&[0, 1])), (1, g(&[0, 1])), (2, g(&[2, 3])), (3, g(&[2, 3])), (4, g(&[4, 5, 0])), (5, g(&[4, 5, 0]))]));
    let mut pts = p.clone();
    let cs = Clusterer::new(1).cluster(&mut pts, &q);
    let mut seen = HashSet::new();
    for c in &cs { for x in &c.points { assert!(seen.insert(x.id), "point {} in two clusters", x.id); } }
}
'''),
 dict(id='b15-count-width', property='P11',
  edits=[('gaoya/src/minhash/mod.rs', "    let mut band_counters: Vec<HashMap<&[T], usize>> = Vec::new();", "    let mut band_counters: Vec<HashMap<&[T], u8>> = Vec::new();")],
  needs='more than 254 signatures in the group with one band value', breaks='the counter of the most frequent band value overflows',
  main='''use gaoya::minhash::*;
fn main() {
    let mut ix: MinHashIndex<u32, u32> = MinHashIndex::new(1, 2, 0.4);
    for i in 0..300 { ix.insert(i, vec![1, 2]); }
    assert_eq!(ix.calculate_centroid(&(0..300).collect::<Vec<_>>()), vec![1, 2]);
}
'''),
]
