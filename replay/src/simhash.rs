use crate::gen::Rng;
use crate::{ck, R};
use gaoya::simhash::*;
use siphasher::sip::SipHasher;
use siphasher::sip128::{Hasher128, SipHasher as SipHasher128};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::hash::{Hash, Hasher};

trait W: SimHashBits + Into<u128> + Send + Sync + 'static { const BITS: usize; fn of(x: u128) -> Self; }
impl W for u64 { const BITS: usize = 64; fn of(x: u128) -> Self { x as u64 } }
impl W for u128 { const BITS: usize = 128; fn of(x: u128) -> Self { x } }
fn bit(x: u128, i: usize) -> bool { (x >> i) & 1 == 1 }
fn dist<S: W>(a: S, b: S) -> usize {
    let (a, b): (u128, u128) = (a.into(), b.into());
    (0..S::BITS).filter(|i| bit(a, *i) != bit(b, *i)).count()
}
fn rnd128(r: &mut Rng) -> u128 { ((r.next() as u128) << 64) | r.next() as u128 }

// ------------------------------------------------------------------ P12
fn p12_check<S: W>(toks: &[u64], h: impl Fn(u64) -> S, got: S, again: S) -> R {
    let (g, g2): (u128, u128) = (got.into(), again.into());
    let mut seen: BTreeMap<u64, (u128, usize)> = BTreeMap::new();
    for t in toks { seen.entry(*t).or_insert_with(|| (h(*t).into(), 0)).1 += 1; }
    for i in 0..S::BITS {
        let set: usize = seen.values().filter(|x| bit(x.0, i)).map(|x| x.1).sum();
        let clear = toks.len() - set;
        ck!(bit(g, i) == (clear > set), "bit {} is {} with {} tokens clear and {} set", i, bit(g, i), clear, set);
    }
    ck!(g == g2, "another order of the same tokens gives another signature");
    Ok(())
}
fn p12_sha(r: &mut Rng, log: &mut String) -> R {
    let parts: Vec<Vec<u8>> = (0..r.below(5)).map(|_| (0..match r.below(4) { 0 => 0, 1 => r.range(50, 140), _ => r.below(9) }).map(|_| r.next() as u8).collect()).collect();
    writeln!(log, "Sha1Hasher, writes {:?}", parts).unwrap();
    let mut h = gaoya::minhash::Sha1Hasher::new();
    for p in &parts { h.write(p); }
    let all: Vec<u8> = parts.concat();
    let d = <sha1::Sha1 as sha1::Digest>::digest(&all);
    let mut want = 0u64;
    for i in 0..8 { want = want << 8 | d[i] as u64; }
    ck!(h.finish() == want, "Sha1Hasher finishes with {:x}, the digest starts with {:x}", h.finish(), want);
    Ok(())
}
pub fn p12(r: &mut Rng, log: &mut String) -> R {
    let k = if r.chance(1, 1000) { r.range(100, 700) } else if r.chance(1, 8000) { r.range(32000, 90000) } else { match r.below(6) { 0 => 0, 1 => 1, 2 => 2, _ => r.range(0, 9) } };
    let kinds = if k > 1000 || r.chance(1, 3) { 1 } else if k > 9 { 30 } else { 6 };
    let toks: Vec<u64> = (0..k).map(|_| r.below(kinds) as u64).collect();
    let mut t2 = toks.clone();
    if k > 0 { t2.rotate_left(r.below(k)); t2.reverse(); }
    if r.chance(1, 8) { return p12_sha(r, log); }
    let (k1, k2) = if r.chance(1, 2) { (r.next(), r.next()) } else { (r.below(3) as u64, r.below(3) as u64) };
    writeln!(log, "SipHash keys {} {} tokens {:?}", k1, k2, toks).unwrap();
    if r.chance(1, 2) {
        let s = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k1, k2));
        let h = |t: u64| { let mut x = SipHasher::new_with_keys(k1, k2); t.hash(&mut x); x.finish() };
        p12_check(&toks, h, s.create_signature(toks.iter()), s.create_signature(t2.iter()))
    } else {
        let s = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k1, k2));
        let h = |t: u64| { let mut x = SipHasher128::new_with_keys(k1, k2); t.hash(&mut x); x.finish128().as_u128() };
        p12_check(&toks, h, s.create_signature(toks.iter()), s.create_signature(t2.iter()))
    }
}

// ------------------------------------------------------------------ P11, SimHash part
pub fn p11_simhash(r: &mut Rng, log: &mut String) -> R {
    let k = if r.chance(1, 1000) { r.range(100, 700) } else if r.chance(1, 20000) { r.range(32000, 70000) } else { r.below(8) };
    let base = rnd128(r);
    let sigs: Vec<u128> = (0..k).map(|_| if r.chance(if k > 8 { 9 } else { 3 }, if k > 8 { 10 } else { 9 }) { base } else { rnd128(r) }).collect();
    writeln!(log, "SimHash centroid of {:x?}", sigs).unwrap();
    let c: u128 = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(1, 2)).create_centroid(sigs.iter().cloned());
    let c64 = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(1, 2)).create_centroid(sigs.iter().map(|x| *x as u64));
    for i in 0..128 {
        let n = sigs.iter().filter(|s| bit(**s, i)).count();
        ck!(bit(c, i) == (n > k / 2), "128-bit centroid bit {} is {}, set in {} of {}", i, bit(c, i), n, k);
        if i < 64 { ck!(bit(c64 as u128, i) == (n > k / 2), "64-bit centroid bit {} set in {} of {}", i, n, k); }
    }
    Ok(())
}

// ------------------------------------------------------------------ P13, P14
fn near<S: W>(r: &mut Rng, base: u128, d: usize) -> S {
    let mut x = base;
    for _ in 0..d {
        let i = match r.below(4) { 0 => r.below(4), 1 => S::BITS - 1 - r.below(4), _ => r.below(S::BITS) };
        x ^= 1u128 << i;
    }
    S::of(x)
}

// one flipped bit in each of `k` different blocks
fn apart<S: W>(r: &mut Rng, base: u128, blocks: usize, k: usize) -> S {
    let mut bl: Vec<usize> = (0..blocks).collect();
    let mut x = base;
    let size = S::BITS / blocks;
    for _ in 0..k { let i = r.below(bl.len()); let b = bl.swap_remove(i); x ^= 1u128 << (b * size + r.below(size)); }
    S::of(x)
}

fn index_case<S: W>(r: &mut Rng, log: &mut String, p: usize) -> R {
    let huge = r.chance(1, 20000);
    let large = huge || r.chance(1, 300);
    let many = !large && r.chance(1, 5000);
    let blocks = if many { r.range(14, 16) } else if r.chance(1, 300) { r.range(12, S::BITS) } else { match r.below(8) { 0 => 1, 1 => *r.pick(&[7, 9, 10, 11]), _ => r.range(2, 7) } };
    let radius = r.below(blocks).min(if blocks > 11 { 1 } else if blocks > 8 || huge { 2 } else { 6 });
    // choosing all blocks but one, or one block, keeps the number of tables small
    let radius = if r.chance(1, 6) { blocks - 1 } else { radius };
    let radius = if many { r.range(6, 7) } else { radius };
    let ids = if huge { 65535 } else if large { r.range(50, 600) } else { 6 };
    writeln!(log, "SimHashIndex<u{}> blocks {} distance {}", S::BITS, blocks, radius).unwrap();
    let mut ix: SimHashIndex<S, u16> = SimHashIndex::new(blocks, radius);
    let mut one: SimHashIndex<S, u16> = SimHashIndex::new(blocks, radius);
    let mut m: BTreeMap<u16, S> = BTreeMap::new();
    let bases: Vec<u128> = (0..2).map(|j| if j == 0 { 0 } else { rnd128(r) }).map(|x: u128| S::of(x).into()).collect();
    for _ in 0..if huge { 1 } else { r.range(1, 5) } {
        let k = if huge { 66000 } else if large { r.below(ids) } else { r.below(5) };
        let near_one = if huge && r.chance(2, 3) { Some(r.below(60000)) } else { None };
        let items: Vec<(u16, S)> = (0..k).map(|j| {
            let b = *r.pick(&bases);
            let d = if huge { if near_one != Some(j) { near_one.map_or(0, |_| radius.min(1)) } else { 0 } } else { r.below(radius + 3) };
            let b = if huge { bases[0] } else { b };
            if many && r.chance(1, 2) { return (r.below(ids) as u16, apart(r, b, blocks, radius)); }
            (if huge { j as u16 } else { r.below(ids) as u16 }, near(r, b, d))
        }).collect();
        match r.below(3) {
            0 => { for (i, s) in &items { writeln!(log, "insert({}, {:?})", i, s).unwrap(); ix.insert(*i, *s); } }
            1 => { writeln!(log, "par_bulk_insert({:?})", items).unwrap();
                   ix.par_bulk_insert(items.iter().map(|x| x.0).collect(), items.iter().map(|x| x.1).collect()); }
            _ => { writeln!(log, "par_bulk_insert_pairs({:?})", items).unwrap(); ix.par_bulk_insert_pairs(items.clone()); }
        }
        for (i, s) in items { one.insert(i, s); m.insert(i, s); }
        let nq = if large && !huge && r.chance(1, 3) { 200 } else { 3 };
        let mut qs: Vec<S> = (0..nq).map(|_| { let b = *r.pick(&bases); let d = r.below(radius + 3); near(r, b, d) }).collect();
        if huge || many { qs[0] = S::of(bases[0]); qs[1] = S::of(bases[1]); }
        // the same query more than once in one batch
        if r.chance(1, 3) { let q = qs[0]; let at = r.below(qs.len()); qs.insert(at, q); qs.insert(at, q); }
        for q in qs.iter().take(6) {
            let want: BTreeSet<u16> = m.iter().filter(|(_, s)| dist(**s, *q) <= radius).map(|(i, _)| *i).collect();
            let got: BTreeSet<u16> = ix.query(q).into_iter().cloned().collect();
            let own: BTreeSet<u16> = ix.query_owned(q).into_iter().collect();
            if p == 13 {
                ck!(got == want, "query({:?}) gives {:?}, expected {:?}", q, got, want);
                ck!(own == want, "query_owned({:?}) gives {:?}, expected {:?}", q, own, want);
                let rd: BTreeSet<u16> = ix.query_return_distance(q).into_iter().map(|x| x.0).collect();
                ck!(rd == want, "query_return_distance({:?}) gives {:?}, expected {:?}", q, rd, want);
            } else {
                ck!(got == own, "query({:?}) gives {:?} but query_owned {:?}", q, got, own);
                let rd = ix.query_return_distance(q);
                let rs: BTreeSet<u16> = rd.iter().map(|x| x.0).collect();
                ck!(rs == got && rs.len() == rd.len(), "query({:?}) gives {:?} but query_return_distance {:?}", q, got, rd);
                for (i, d) in &rd { ck!(m.get(i).map(|s| dist(*s, *q)) == Some(*d), "distance of {} reported {}, signature {:?} query {:?}", i, d, m.get(i), q); }
                ck!(rd.windows(2).all(|x| x[0].1 <= x[1].1), "distances not in order {:?}", rd);
                match ix.query_one(q) {
                    None => ck!(got.is_empty(), "query_one({:?}) gives nothing but query {:?}", q, got),
                    Some((i, d)) => ck!(got.contains(i) && m.get(i).map(|s| dist(*s, *q)) == Some(d) && Some(d) == rd.first().map(|x| x.1),
                        "query_one({:?}) gives ({}, {}), distances {:?}", q, i, d, rd),
                }
                let g1: BTreeSet<u16> = one.query(q).into_iter().cloned().collect();
                ck!(got == g1, "query({:?}) after bulk insertion {:?}, one by one {:?}", q, got, g1);
            }
        }
        if p == 14 {
            ck!(ix.size() == m.len(), "size() is {}, expected {}", ix.size(), m.len());
            let b = ix.par_bulk_query(&qs);
            let d = ix.par_bulk_query_return_distance(&qs);
            ck!(b.len() == qs.len() && d.len() == qs.len(), "bulk results {} {}", b.len(), d.len());
            for (j, q) in qs.iter().enumerate() {
                ck!(b[j] == ix.query_owned(q), "par_bulk_query[{}] differs from query_owned", j);
                let (mut x, mut y) = (d[j].clone(), ix.query_return_distance(q));
                ck!(x.windows(2).all(|z| z[0].1 <= z[1].1), "bulk distances not in order {:?}", x);
                x.sort(); y.sort();
                ck!(x == y, "par_bulk_query_return_distance[{}] is {:?}, single {:?}", j, x, y);
            }
        }
    }
    Ok(())
}
pub fn p13(r: &mut Rng, log: &mut String) -> R { if r.chance(1, 2) { index_case::<u64>(r, log, 13) } else { index_case::<u128>(r, log, 13) } }
pub fn p14(r: &mut Rng, log: &mut String) -> R { if r.chance(1, 2) { index_case::<u64>(r, log, 14) } else { index_case::<u128>(r, log, 14) } }

// ------------------------------------------------------------------ P15
fn p15_w<S: W>(r: &mut Rng, log: &mut String) -> R {
    let x = match r.below(4) { 0 => 0, 1 => u128::MAX, 2 => 1u128 << r.below(S::BITS), _ => rnd128(r) };
    let a = S::of(x);
    let b: S = match r.below(4) { 0 => a, 1 => S::of(!x), 2 => { let d = r.below(5); near(r, x, d) }, _ => S::of(rnd128(r)) };
    writeln!(log, "u{} {:?} {:?}", S::BITS, a, b).unwrap();
    let (ua, _ub): (u128, u128) = (a.into(), b.into());
    let d = dist(a, b);
    ck!(a.hamming_distance(&b) == d, "hamming_distance {} expected {}", a.hamming_distance(&b), d);
    ck!(b.hamming_distance(&a) == d, "hamming_distance not symmetric");
    ck!((d == 0) == (a == b) && d <= S::BITS, "hamming distance {}", d);
    let ones = (0..S::BITS).filter(|i| bit(ua, *i)).count();
    ck!(SimHashBits::count_ones(a) == ones, "count_ones {} expected {}", SimHashBits::count_ones(a), ones);
    ck!(S::bit_length() == S::BITS, "bit_length {}", S::bit_length());
    ck!(a.to_u32_high_bits() == (ua >> (S::BITS - 32)) as u32, "to_u32_high_bits {:x}", a.to_u32_high_bits());
    ck!(a.to_u64_high_bits() == (ua >> (S::BITS - 64)) as u64, "to_u64_high_bits {:x}", a.to_u64_high_bits());
    let ang = d as f64 * std::f64::consts::PI / S::BITS as f64;
    ck!((a.hamming_angle(&b) - ang).abs() < 1e-9, "hamming_angle {} expected {}", a.hamming_angle(&b), ang);
    Ok(())
}
pub fn p15(r: &mut Rng, log: &mut String) -> R { if r.chance(1, 2) { p15_w::<u64>(r, log) } else { p15_w::<u128>(r, log) } }
