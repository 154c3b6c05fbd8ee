use crate::gen::Rng;
use crate::{ck, R};
use gaoya::minhash::*;
use rand::distributions::{Distribution, Uniform};
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::hash::{BuildHasher, Hasher};

// ------------------------------------------------------------------ P07
fn bag<C: IdContainer<u16>>(r: &mut Rng, log: &mut String) -> R {
    let mut c = C::new();
    ck!(c.len() == 0 && c.is_empty(), "a new container has length {}", c.len());
    let mut m: BTreeMap<u16, usize> = BTreeMap::new();
    // ids whose multiplicity is no longer determined (removed after several pushes)
    let mut free: BTreeSet<u16> = BTreeSet::new();
    let huge = r.chance(1, 60000);
    let large = huge || r.chance(1, 1000);
    let ids = if huge { 65535 } else if large { r.range(20, 500) } else { r.range(1, 6) } as u16;
    let steps = if huge { 140000 } else if large { r.range(50, 900) } else { r.range(1, 14) };
    for step in 0..steps {
        let id = r.below(ids as usize) as u16;
        match r.below(5) {
            0..=2 => {
                writeln!(log, "push({})", id).unwrap();
                c.push(id);
                *m.entry(id).or_default() += 1;
            }
            _ => {
                writeln!(log, "remove({})", id).unwrap();
                c.remove(&id);
                match m.get(&id).cloned() {
                    None => {}
                    Some(1) if !free.contains(&id) => { m.remove(&id); }
                    Some(_) => { free.insert(id); }
                }
            }
        }
        if large && step + 1 < steps && !r.chance(1, if huge { 40000 } else { 30 }) { continue; }
        let known: BTreeSet<u16> = m.keys().cloned().filter(|i| !free.contains(i)).collect();
        let maybe: BTreeSet<u16> = m.keys().cloned().collect();
        let pre: Vec<u16> = (0..r.below(3)).map(|_| r.below(9) as u16 + 3).collect();
        let mut got: HashSet<u16> = pre.iter().cloned().collect();
        c.copy_to(&mut got);
        let mut gotr: HashSet<&u16> = pre.iter().collect();
        c.copy_refs_to(&mut gotr);
        let gotr: HashSet<u16> = gotr.into_iter().cloned().collect();
        ck!(got == gotr, "copy_to gives {:?}, copy_refs_to {:?}", got, gotr);
        for i in pre.iter().chain(known.iter()) { ck!(got.contains(i), "id {} missing after copying into {:?}: {:?}", i, pre, got); }
        for i in &got { ck!(maybe.contains(i) || pre.contains(i), "id {} copied but not held (held {:?})", i, maybe); }
        let held = got.iter().any(|i| !pre.contains(i) || maybe.contains(i) && known.contains(i));
        if free.is_empty() {
            ck!(c.is_empty() == m.is_empty(), "is_empty() is {} with {:?} held", c.is_empty(), m);
            ck!((c.len() == 0) == m.is_empty(), "len() is {} with {:?} held", c.len(), m);
            if m.values().all(|x| *x == 1) { ck!(c.len() == m.len(), "len() is {} with {:?} held", c.len(), m); }
        } else if held && pre.is_empty() {
            ck!(!c.is_empty(), "is_empty() but an id is held");
        }
    }
    Ok(())
}
pub fn p07(r: &mut Rng, log: &mut String) -> R {
    match r.below(4) {
        0 => { writeln!(log, "HashSetContainer").unwrap(); bag::<HashSetContainer<u16>>(r, log) }
        1 => { writeln!(log, "VecContainer").unwrap(); bag::<VecContainer<u16>>(r, log) }
        2 => { writeln!(log, "SmallVecContainer<2>").unwrap(); bag::<SmallVecContainer<u16, 2>>(r, log) }
        _ => { writeln!(log, "SmallVecContainer<4>").unwrap(); bag::<SmallVecContainer<u16, 4>>(r, log) }
    }
}

// ------------------------------------------------------------------ P08
/// A hash function under the test's control: the hash of a u64 token is the token itself.
#[derive(Clone, Default)]
struct Ident;
#[derive(Clone)]
struct IdentHasher(u64);
impl BuildHasher for Ident { type Hasher = IdentHasher; fn build_hasher(&self) -> IdentHasher { IdentHasher(0) } }
impl Hasher for IdentHasher {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
}

fn hashes(r: &mut Rng, wide: bool) -> Vec<u64> {
    let k = if r.chance(1, 3000) { r.range(100, 10000) } else { match r.below(6) { 0 => 0, 1 => 1, _ => r.range(1, 8) } };
    (0..k).map(|_| {
        let x = match r.below(4) { 0 => r.below(5) as u64, 1 => u64::MAX - r.below(3) as u64, _ => r.next() };
        if wide || r.chance(1, 2) { x } else { x & 0xFFFF_FFFF }
    }).collect()
}

macro_rules! p08_case {
    ($r:expr, $log:expr, $name:ident, $t:ty, $w:ty, $prime:expr, $bits:expr, $full:expr) => {{
        let r = $r;
        let n = if r.chance(1, 1000) { *r.pick(&[100, 128, 200, 256, 500, 1025, 2500]) } else { match r.below(8) { 0 => 0, 1 => 1, _ => r.range(1, 9) } };
        let seed = r.below(5) as u64;
        let h = if r.chance(1, 6) { $name::new_with_hasher(n, Ident) } else { $name::new_with_hasher_and_seed(n, Ident, seed) };
        let h2 = if r.chance(1, 2) { $name::new_with_hasher_and_seed(n, Ident, seed) } else { $name::new_with_hasher_and_seed(n, Ident, seed) };
        let h1 = $name::new_with_hasher_and_seed(n, Ident, seed);
        let toks = hashes(r, $full);
        writeln!($log, "{} num_hashes={} seed={} token hashes {:?}", stringify!($name), n, seed, toks).unwrap();
        ck!(h.num_hashes() == n, "num_hashes() is {}", h.num_hashes());
        let s = h1.create_signature(toks.iter());
        ck!(s.len() == n, "signature has {} positions, expected {}", s.len(), n);
        ck!(s == h2.create_signature(toks.iter()), "two hashers with the same seed differ");
        if r.chance(1, 8) {
            ck!($name::new_with_hasher(n, Ident).create_signature(toks.iter()) == $name::new_with_hasher(n, Ident).create_signature(toks.iter()),
                "two hashers built by new_with_hasher differ");
            ck!($name::new(n).create_signature(toks.iter()) == $name::new(n).create_signature(toks.iter()), "two hashers built by new differ");
            ck!($name::new(n).create_signature(toks.iter()).len() == n, "signature length of a hasher built by new");
        }
        // order and repetition do not matter
        let mut t2 = toks.clone();
        t2.reverse();
        if !toks.is_empty() { for _ in 0..r.below(3) { let x = *r.pick(&toks); t2.push(x); } let k = r.below(t2.len()); t2.rotate_left(k); }
        let s2 = h1.create_signature(t2.iter());
        ck!(s == s2, "tokens {:?} give {:?} but {:?} give {:?}", toks, s, t2, s2);
        if toks.is_empty() { ck!(s.iter().all(|x| *x == 0), "empty stream gives {:?}", s); }
        // bulk
        let batch: Vec<Vec<u64>> = (0..if r.chance(1, 1000) { 300 } else { r.below(4) }).map(|_| hashes(r, $full)).collect();
        let want: Vec<Vec<$t>> = batch.iter().map(|b| h1.create_signature(b.iter())).collect();
        ck!(h1.bulk_create_signature(&batch) == want, "bulk_create_signature differs from create_signature for {:?}", batch);
        let refs: Vec<&Vec<u64>> = batch.iter().collect();
        ck!(h1.bulk_create_signature_refs(&refs) == want, "bulk_create_signature_refs differs for {:?}", batch);
        ck!(want.iter().all(|x| x.len() == n), "bulk signature lengths");
        // the formula, with the coefficients drawn as the documentation of the scheme says; skipped when the
        // coefficients turn out to be drawn differently (the property does not fix them)
        let mut rng = StdRng::seed_from_u64(seed);
        let (ra, rb) = (Uniform::from(1..$prime), Uniform::from(0..$prime));
        let a: Vec<$w> = (0..n).map(|_| ra.sample(&mut rng)).collect();
        let b: Vec<$w> = (0..n).map(|_| rb.sample(&mut rng)).collect();
        let f = |i: usize, x: u64| (x as $w).wrapping_mul(a[i]).wrapping_add(b[i]) % $prime;
        let probe = h1.create_signature([0u64].iter());
        let same = probe.len() == n && (0..n).all(|i| probe[i] == b[i] as $t);
        // token hashes chosen so that the value before the reduction is next to a multiple of the prime
        let mut toks = toks;
        let mut s = s;
        if same && n > 0 && r.chance(1, 4) {
            let i = r.below(n);
            let target = ($prime as $w).wrapping_mul(r.below(9) as $w).wrapping_add(*r.pick(&[0, 1, 2])).wrapping_sub(1);
            if a[i] % 2 == 1 {
                let mut inv: $w = 1;
                for _ in 0..7 { inv = inv.wrapping_mul((2 as $w).wrapping_sub(a[i].wrapping_mul(inv))); }
                let x = target.wrapping_sub(b[i]).wrapping_mul(inv);
                if r.chance(1, 2) { toks.clear(); }
                toks.push(x as u64);
                writeln!($log, "then with token hashes {:?}", toks).unwrap();
                s = h1.create_signature(toks.iter());
            }
        }
        if same && !toks.is_empty() {
            for i in 0..n {
                let want = toks.iter().map(|x| f(i, *x)).min().unwrap() as $t;
                ck!(s[i] == want, "position {} is {}, expected {}", i, s[i], want);
            }
        }
        Ok(())
    }};
}
pub fn p08(r: &mut Rng, log: &mut String) -> R {
    const P31: u32 = (1 << 31) - 1;
    const P61: u64 = (1 << 61) - 1;
    match r.below(4) {
        0 => p08_case!(r, log, MinHasher8, u8, u32, P31, 32, false),
        1 => p08_case!(r, log, MinHasher16, u16, u32, P31, 32, false),
        2 => p08_case!(r, log, MinHasher32, u32, u32, P31, 32, false),
        _ => p08_case!(r, log, MinHasher64V1, u64, u64, P61, 64, true),
    }
}

// ------------------------------------------------------------------ P09
pub fn p09(r: &mut Rng, log: &mut String) -> R {
    let n = if r.chance(1, 200) { r.range(100, 600) } else if r.chance(1, 20000) { r.range(65000, 70000) } else { r.range(1, 12) };
    let a: Vec<u8> = (0..n).map(|_| r.below(3) as u8).collect();
    let b: Vec<u8> = if r.chance(1, 6) { a.clone() } else { a.iter().map(|x| if r.chance(1, 2) { *x } else { r.below(3) as u8 }).collect() };
    let eq = a.iter().zip(&b).filter(|(x, y)| x == y).count();
    let want = eq as f64 / n as f64;
    writeln!(log, "signatures {:?} {:?}", a, b).unwrap();
    let s = compute_minhash_similarity(&a, &b);
    ck!(s == want, "similarity {} expected {}", s, want);
    ck!(compute_minhash_similarity(&b, &a) == s, "similarity not symmetric");
    ck!((0.0..=1.0).contains(&s) && (s == 1.0) == (a == b), "similarity {} of {:?} and {:?}", s, a, b);
    let d = compute_minhash_distance(&a, &b);
    ck!(d == 1.0 - want, "distance {} expected {}", d, 1.0 - want);
    let thr = match r.below(3) { 0 => r.below(n + 1) as f64 / n as f64, 1 => r.below(101) as f64 / 100.0, _ => want };
    let g = similarity_greater_than_threshold(&a, &b, thr);
    ck!(g == (want >= thr), "similarity_greater_than_threshold({}) is {} for similarity {}", thr, g, want);
    // sets
    let (k, v) = if r.chance(1, 1000) { (700, 400) } else if r.chance(1, 40000) { (150000, 70000) } else { (6, 5) };
    let x: Vec<u32> = (0..r.below(k)).map(|_| r.below(v) as u32).collect();
    let y: Vec<u32> = if r.chance(1, 8) { x.clone() } else { (0..r.below(k)).map(|_| r.below(v) as u32).collect() };
    let sx: BTreeSet<_> = x.iter().collect();
    let sy: BTreeSet<_> = y.iter().collect();
    let u = sx.union(&sy).count();
    writeln!(log, "token streams {:?} {:?}", x, y).unwrap();
    if u > 0 {
        let want = sx.intersection(&sy).count() as f32 / u as f32;
        let j = compute_jaccard_similarity(x.iter(), y.iter());
        ck!(j == want, "set similarity {} expected {}", j, want);
        let jd = compute_jaccard_distance(x.iter(), y.iter());
        ck!(jd == 1.0 - want, "set distance {} expected {}", jd, 1.0 - want);
    }
    Ok(())
}

// ------------------------------------------------------------------ P10
pub fn p10(r: &mut Rng, log: &mut String) -> R {
    let s = match r.below(8) { 0 => 1.0, 1 => 0.0, 2 => 1.0 - 0.5f64.powi(r.below(40) as i32), _ => r.below(1001) as f64 / 1000.0 };
    let n = if r.chance(1, 2000) { r.range(3000, 70000) } else { match r.below(6) { 0 => r.below(4), 1 => r.range(1000, 3000), _ => r.range(1, 300) } };
    let p = match r.below(6) { 0 => 0.99, 1 => r.below(1000) as f64 / 1000.0, 2 => 0.0, 3 => if r.chance(1, 2) { -0.5 } else { 1.0 }, _ => 1.0 - 0.5f64.powi(r.below(20) as i32) };
    // similarities for which about one band agrees, and probabilities next to one that is reached
    let s = if r.chance(1, 6) { (r.range(1, 3000) as f64 / 1000.0 / n.max(1) as f64).powf(1.0 / r.range(1, 6) as f64).min(1.0) } else { s };
    let p = if r.chance(1, 3) {
        let k = r.range(1, 20);
        let d = *r.pick(&[-1e-3, -1e-6, 1e-6, 1e-3]);
        1.0 - (1.0 - s.powf(k as f64)).powf((n / k) as f64) + d
    } else { p };
    let conv = r.chance(1, 3);
    let p = if conv { 0.99 } else { p };
    writeln!(log, "similarity {} num_hashes {} probability {} convenience form {}", s, n, p, conv).unwrap();
    let (b, w) = if conv { calculate_minhash_params(s, n) } else { calculate_minhash_params_with_proba(s, n, p) };
    ck!(w >= 1, "band width {}", w);
    ck!(b == n / w, "bands {} width {} for {} hashes", b, w, n);
    let pr = |w: usize| 1.0 - (1.0 - s.powf(w as f64)).powf((n / w) as f64);
    // powers of 0 and 1 are exact, others only up to rounding
    let tol = if s == 0.0 || s == 1.0 { 0.0 } else { 1e-12 };
    for i in 2..=w { ck!(pr(i) > p - tol, "width {} reaches only {} <= {} (result {} x {})", i, pr(i), p, b, w); }
    ck!(b <= 1 || pr(w + 1) <= p + tol, "stopped at {} x {} although width {} reaches {} > {}", b, w, w + 1, pr(w + 1), p);
    Ok(())
}

// ------------------------------------------------------------------ P11
fn modal<K: Ord + Clone + std::fmt::Debug>(vals: &[K], got: &K, what: &str) -> R {
    let mut m: BTreeMap<&K, usize> = BTreeMap::new();
    for v in vals { *m.entry(v).or_default() += 1; }
    let max = m.values().cloned().max().unwrap_or(0);
    ck!(m.get(got).cloned().unwrap_or(0) == max, "{}: {:?} is not a most frequent one of {:?}", what, got, vals);
    Ok(())
}
pub fn p11(r: &mut Rng, log: &mut String) -> R {
    let wide = r.chance(1, 500);
    let (b, w) = if wide { *r.pick(&[(20, 5), (42, 3), (1, 100), (60, 1), (300, 1)]) } else { (r.range(1, 4), r.range(1, 3)) };
    let n = b * w;
    let k = if wide { r.range(1, 60) } else { r.range(1, 7) };
    let sigs: Vec<Vec<u8>> = (0..k).map(|_| (0..n).map(|_| r.below(3) as u8).collect()).collect();
    let mut ix: MinHashIndex<u8, u16> = MinHashIndex::new(b, w, 0.5);
    for (i, s) in sigs.iter().enumerate() { ix.insert(i as u16, s.clone()); }
    // now and then a group larger than a narrow counter could count
    let many = if r.chance(1, 50) { *r.pick(&[300, 600]) } else if r.chance(1, 1500) { 70000 } else { r.range(1, 8) };
    let few = if many > 8 { 1 + r.below(2) } else { k + 2 };
    let mut ids: Vec<u16> = (0..many).map(|_| if many > 8 && r.chance(1, 5) { r.below(k + 2) } else { r.below(few) } as u16).collect();
    if !ids.iter().any(|i| (*i as usize) < k) { ids.push(0); }
    writeln!(log, "{} bands x {}, stored {:?}, centroid of {:?}", b, w, sigs, ids).unwrap();
    let c = ix.calculate_centroid(&ids);
    let g: Vec<Vec<u8>> = ids.iter().filter(|i| (**i as usize) < k).map(|i| sigs[*i as usize].clone()).collect();
    ck!(c.len() == n, "centroid has length {}", c.len());
    for j in 0..b {
        let vals: Vec<Vec<u8>> = g.iter().map(|s| s[j * w..(j + 1) * w].to_vec()).collect();
        modal(&vals, &c[j * w..(j + 1) * w].to_vec(), &format!("band {}", j))?;
    }
    #[cfg(gaoya_verif)]
    {
        let refs: Vec<&Vec<u8>> = g.iter().collect();
        for c in [verif_hooks::centroid(&g), verif_hooks::centroid_from_refs(&refs)] {
            ck!(c.len() == n, "position-wise centroid has length {}", c.len());
            for i in 0..n { modal(&g.iter().map(|s| s[i]).collect::<Vec<_>>(), &c[i], &format!("position {}", i))?; }
        }
    }
    Ok(())
}
