use crate::gen::Rng;
use crate::{ck, R};
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Id = u16;

/// Which of the properties a run looks at.
#[derive(Clone, Copy, PartialEq)]
enum P { P01, P02, P03, P04, P05, P06 }

struct Model<T> {
    map: BTreeMap<Id, Vec<T>>,
    /// every signature an id was given since the last clear (stale band entries are allowed)
    ever: BTreeMap<Id, Vec<Vec<T>>>,
    reinserted: bool,
}

fn sim<T: Eq>(a: &[T], b: &[T]) -> f64 {
    let m = a.iter().zip(b).filter(|(x, y)| x == y).count();
    m as f64 / a.len() as f64
}
fn share<T: Eq>(a: &[T], b: &[T], w: usize) -> bool {
    if w == 0 { return !a.is_empty() || true; }
    a.chunks(w).zip(b.chunks(w)).any(|(x, y)| x == y)
}

trait Val: MinHashType + std::fmt::Debug + Ord { fn of(x: usize) -> Self; }
impl Val for u8 { fn of(x: usize) -> Self { x as u8 } }
impl Val for u64 { fn of(x: usize) -> Self { x as u64 } }
impl Val for i32 { fn of(x: usize) -> Self { x as i32 - 1 } }

fn sig<T: Val>(r: &mut Rng, n: usize, alphabet: usize) -> Vec<T> {
    (0..n).map(|_| T::of(r.below(alphabet))).collect()
}
/// a signature related to one already seen, so that bands collide
fn related<T: Val>(r: &mut Rng, n: usize, alphabet: usize, seen: &[Vec<T>]) -> Vec<T> {
    if seen.is_empty() || r.chance(1, 3) { return sig(r, n, alphabet); }
    let mut s = r.pick(seen).clone();
    for _ in 0..r.below(n + 1) {
        let i = r.below(n);
        s[i] = T::of(r.below(alphabet));
    }
    s
}

pub fn p01(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P01) }
pub fn p02(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P02) }
pub fn p03(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P03) }
pub fn p04(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P04) }
pub fn p05(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P05) }
pub fn p06(r: &mut Rng, log: &mut String) -> R { dispatch(r, log, P::P06) }

fn dispatch(r: &mut Rng, log: &mut String, p: P) -> R {
    match r.below(5) {
        0 => history::<u8, HashSetContainer<Id>>(r, log, p, "HashSetContainer"),
        1 => history::<u64, VecContainer<Id>>(r, log, p, "VecContainer"),
        2 => history::<i32, SmallVecContainer<Id, 2>>(r, log, p, "SmallVecContainer<2>"),
        3 => history::<u64, SmallVecContainer<Id, 4>>(r, log, p, "SmallVecContainer<4>"),
        _ => history::<u64, HashSetContainer<Id>>(r, log, p, "HashSetContainer"),
    }
}

fn history<T: Val, C: IdContainer<Id>>(r: &mut Rng, log: &mut String, p: P, cname: &str) -> R {
    // most cases are small; some are of the size real use has
    let huge = r.chance(1, 60000);
    let wide = !huge && r.chance(1, 20000);
    let large = huge || r.chance(1, 3000);
    let big = large || r.chance(1, 40);
    let (b, w) = if huge { (r.range(1, 2), r.range(1, 2)) }
        else if wide { *r.pick(&[(1usize, 5000usize), (2500, 2), (800, 90), (1, 70000)]) }
        else if large { *r.pick(&[(1usize, 1usize), (10, 1), (20, 5), (25, 8), (32, 8), (42, 3), (60, 5), (1, 200), (300, 1), (7, 43)]) }
        else if big { (r.range(5, 12), r.range(1, 3)) } else { (r.range(1, 4), r.range(1, 3)) };
    let n = b * w;
    let alphabet = if large { *r.pick(&[2usize, 3, 20, 250]) } else { *r.pick(&[2usize, 3, 3, 5]) };
    let thr = match r.below(5) {
        0 => 0.0,
        1 => 1.0,
        2 => r.below(n + 1) as f64 / n as f64,
        3 => 1.0 - r.below(n + 1) as f64 / n as f64,
        _ => r.below(100) as f64 / 100.0,
    };
    let cap = r.chance(1, 4);
    let mk = || -> MinHashIndex<T, Id, C> {
        if cap { MinHashIndex::new_with_capacity(b, w, thr, 64, 0.5) } else { MinHashIndex::new_index(b, w, thr) }
    };
    let mut ix = mk();
    // a second index built by inserting one by one, for P05
    let mut one = mk();
    let mut m = Model { map: BTreeMap::new(), ever: BTreeMap::new(), reinserted: false };
    let ids = if huge { 65000 } else if wide { 8 } else if large { r.range(200, 1500) } else if big { 60 } else { r.range(2, 6) } as usize;
    let mut seen: Vec<Vec<T>> = Vec::new();
    writeln!(log, "index: {} bands x {} values, threshold {}, {}", b, w, thr, cname).unwrap();
    let steps = if huge { 2 } else if wide { 3 } else if large { r.range(2, 5) } else if big { r.range(3, 10) } else { r.range(1, 9) };
    for step in 0..steps {
        let avoid_reinsert = p == P::P06 || huge || r.chance(1, 2);
        let op = if large && step == 0 { 5 } else { r.below(14) };
        match op {
            0..=4 => {
                let id = r.below(ids) as Id;
                if avoid_reinsert && m.map.contains_key(&id) { continue; }
                let s = related(r, n, alphabet, &seen);
                seen.push(s.clone());
                writeln!(log, "insert({}, {:?})", id, s).unwrap();
                ix.insert(id, s.clone());
                one.insert(id, s.clone());
                bind(&mut m, id, s);
            }
            5 | 6 => {
                // bulk insert
                let k = if huge { ids } else { r.below(if large { ids } else if big { 40 } else { 5 }) };
                let mut items: Vec<(Id, Vec<T>)> = Vec::new();
                let mut taken: HashSet<Id> = HashSet::new();
                for j in 0..k {
                    let id = if huge { j as Id } else { r.below(ids) as Id };
                    if avoid_reinsert && (m.map.contains_key(&id) || taken.contains(&id)) { continue; }
                    // many ids with the same signature now and then
                    let s = if large && !seen.is_empty() && r.chance(if huge { 9 } else { 4 }, 10) { seen[0].clone() } else { related(r, n, alphabet, &seen) };
                    if seen.len() < 2000 { seen.push(s.clone()); }
                    taken.insert(id);
                    items.push((id, s));
                }
                if r.chance(1, 2) {
                    writeln!(log, "par_bulk_insert({:?})", items).unwrap();
                    ix.par_bulk_insert(items.iter().map(|x| x.0).collect(), items.iter().map(|x| x.1.clone()).collect());
                } else {
                    writeln!(log, "par_bulk_insert_pairs({:?})", items).unwrap();
                    ix.par_bulk_insert_pairs(items.clone());
                }
                for (id, s) in items { one.insert(id, s.clone()); bind(&mut m, id, s); }
            }
            7 | 8 => {
                let id = r.below(ids + 1) as Id;
                writeln!(log, "remove({})", id).unwrap();
                let got = ix.remove(&id);
                one.remove(&id);
                let want = m.map.remove(&id);
                if p == P::P04 { ck!(got == want, "remove({}) returned {:?}, expected {:?}", id, got, want); }
            }
            9 => {
                let k = r.below(if large { ids / 2 } else if big { 30 } else { 5 });
                let l: Vec<Id> = (0..k).map(|_| r.below(ids + 1) as Id).collect();
                writeln!(log, "bulk_remove({:?})", l).unwrap();
                let got = ix.bulk_remove(&l);
                let mut want = Vec::new();
                for id in &l {
                    one.remove(id);
                    if let Some(s) = m.map.remove(id) { want.push(s); }
                }
                if p == P::P04 { ck!(got == want, "bulk_remove returned {:?}, expected {:?}", got, want); }
            }
            10 => {
                if !r.chance(1, 3) { continue; }
                writeln!(log, "clear()").unwrap();
                ix.clear();
                one.clear();
                m.map.clear();
                m.ever.clear();
            }
            11 => {
                if r.chance(1, 2) {
                    writeln!(log, "shrink_to_fit()").unwrap();
                    ix.shrink_to_fit();
                } else {
                    let c = if r.chance(1, 2) { 0 } else { r.below(if large { 2000 } else { 20 }) };
                    writeln!(log, "shrink_to({})", c).unwrap();
                    ix.shrink_to(c);
                }
            }
            12 if p == P::P04 => {
                // wrong lengths are rejected and never stored
                let mut wl = r.below(n + 3);
                if wl == n { wl = n + 1; }
                let id = r.below(ids) as Id;
                let bad: Vec<T> = sig(r, wl, alphabet);
                let good: Vec<T> = sig(r, n, alphabet);
                let kind = r.below(4);
                let other = ids as Id + 7;
                // a failed insertion may leave partial band state: use a throw-away index
                let mut t = mk();
                t.insert(id, good.clone());
                writeln!(log, "wrong length ({} instead of {}), kind {}", wl, n, kind).unwrap();
                let res = catch_unwind(AssertUnwindSafe(|| match kind {
                    0 => t.insert(other, bad.clone()),
                    1 => t.par_bulk_insert(vec![other + 1, other], vec![good.clone(), bad.clone()]),
                    2 => t.par_bulk_insert_pairs(vec![(other + 1, good.clone()), (other, bad.clone())]),
                    _ => t.par_bulk_insert(vec![other, other + 1], vec![bad.clone(), good.clone()]),
                }));
                ck!(res.is_err(), "a signature of length {} was accepted by an index of {} hashes", wl, n);
                ck!(t.get_signature(&other).is_none(), "a rejected signature was stored");
                ck!(t.get_signature(&id) == Some(&good), "rejecting a signature changed another id");
            }
            _ => {}
        }
        if p == P::P04 { check_map(&ix, &m, ids)?; }
        let nq = if large && !huge && r.chance(1, 4) { 300 } else { 2 };
        let mut qs: Vec<Vec<T>> = (0..nq).map(|_| related(r, n, alphabet, &seen)).collect();
        // the same query more than once in one batch
        if r.chance(1, 3) { let q = if seen.is_empty() || r.chance(1, 2) { qs[0].clone() } else { seen[0].clone() }; let at = r.below(qs.len()); qs.insert(at, q.clone()); qs.insert(at, q); }
        for q in qs.iter().take(4) { check_query(r, &ix, &one, &m, q, p, b, w, thr, ids, log)?; }
        if p == P::P01 || p == P::P02 || p == P::P03 || p == P::P05 {
            check_by_id(&ix, &one, &m, p, w, thr, ids)?;
            check_bulk(&ix, &one, &m, &qs, p, w, thr)?;
        }
        if p == P::P06 && !m.reinserted || p == P::P05 { check_buckets(&ix, &one, &m, p, b, w)?; }
    }
    Ok(())
}

fn bind<T: Val>(m: &mut Model<T>, id: Id, s: Vec<T>) {
    if m.map.contains_key(&id) { m.reinserted = true; }
    m.ever.entry(id).or_default().push(s.clone());
    m.map.insert(id, s);
}

fn check_map<T: Val, C: IdContainer<Id>>(ix: &MinHashIndex<T, Id, C>, m: &Model<T>, ids: usize) -> R {
    ck!(ix.size() == m.map.len(), "size() is {}, expected {}", ix.size(), m.map.len());
    for id in 0..(ids + 2) as Id {
        ck!(ix.get_signature(&id) == m.map.get(&id), "get_signature({}) is {:?}, expected {:?}", id,
            ix.get_signature(&id), m.map.get(&id));
    }
    ck!(ix.get_id_signature_map().len() == m.map.len(), "get_id_signature_map has {} entries", ix.get_id_signature_map().len());
    Ok(())
}

fn only_good<T: Val>(m: &Model<T>, got: &BTreeSet<Id>, q: &[T], thr: f64, what: &str) -> R {
    for id in got {
        match m.map.get(id) {
            None => return Err(format!("{}({:?}) returned id {} which is not stored", what, q, id)),
            Some(s) => ck!(sim(s, q) >= thr, "{}({:?}) returned id {} with similarity {} below {}", what, q, id, sim(s, q), thr),
        }
    }
    Ok(())
}
fn none_missed<T: Val>(m: &Model<T>, got: &BTreeSet<Id>, q: &[T], w: usize, thr: f64, what: &str) -> R {
    for (id, s) in &m.map {
        if share(s, q, w) && sim(s, q) >= thr {
            ck!(got.contains(id), "{}({:?}) missed id {} with signature {:?} (similarity {})", what, q, id, s, sim(s, q));
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn check_query<T: Val, C: IdContainer<Id>>(r: &mut Rng, ix: &MinHashIndex<T, Id, C>, one: &MinHashIndex<T, Id, C>,
        m: &Model<T>, q: &Vec<T>, p: P, b: usize, w: usize, thr: f64, ids: usize, _log: &mut String) -> R {
    let _ = (b, ids);
    let borrowed: BTreeSet<Id> = ix.query(q).into_iter().cloned().collect();
    let owned: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
    let scored = ix.query_owned_return_similarity(q);
    let sset: BTreeSet<Id> = scored.iter().map(|x| x.0).collect();
    let best = ix.query_one(q).map(|(i, s)| (*i, s));
    let all = m.map.len() + 10;
    let k = if r.chance(1, 20) { r.below(2000) } else { r.below(4) };
    let topk = ix.query_top_k(q, k);
    let topall = ix.query_top_k(q, all);
    match p {
        P::P01 => {
            only_good(m, &borrowed, q, thr, "query")?;
            only_good(m, &owned, q, thr, "query_owned")?;
            only_good(m, &sset, q, thr, "query_owned_return_similarity")?;
            if let Some((i, _)) = best { only_good(m, &[i].into_iter().collect(), q, thr, "query_one")?; }
        }
        P::P02 => {
            none_missed(m, &borrowed, q, w, thr, "query")?;
            none_missed(m, &owned, q, w, thr, "query_owned")?;
            none_missed(m, &sset, q, w, thr, "query_owned_return_similarity")?;
        }
        P::P03 => {
            ck!(borrowed == owned, "query({:?}) gives {:?} but query_owned {:?}", q, borrowed, owned);
            ck!(borrowed == sset && sset.len() == scored.len(), "query({:?}) gives {:?} but query_owned_return_similarity {:?}", q, borrowed, scored);
            for (i, s) in &scored {
                let want = m.map.get(i).map(|x| sim(x, q));
                ck!(Some(*s) == want, "similarity of {} to {:?} reported {} expected {:?}", i, q, s, want);
            }
            ck!(scored.windows(2).all(|x| x[0].1 >= x[1].1), "similarities not in order: {:?}", scored);
            match best {
                None => ck!(borrowed.is_empty(), "query_one({:?}) found nothing but query gives {:?}", q, borrowed),
                Some((i, s)) => {
                    ck!(borrowed.contains(&i), "query_one({:?}) gives {} which query does not: {:?}", q, i, borrowed);
                    ck!(Some(s) == scored.first().map(|x| x.1), "query_one({:?}) gives ({}, {}) but the best is {:?}", q, i, s, scored.first());
                    ck!(Some(s) == m.map.get(&i).map(|x| sim(x, q)), "query_one({:?}) reports a wrong similarity {} for {}", q, s, i);
                }
            }
            // top-k
            let lo: Vec<(Id, f64)> = m.map.iter().filter(|(_, s)| share(s, q, w)).map(|(i, s)| (*i, 1.0 - sim(s, q))).collect();
            let hi = m.map.keys().filter(|i| m.ever[i].iter().any(|s| share(s, q, w))).count();
            for (kk, t) in [(k, &topk), (all, &topall)] {
                let set: BTreeSet<Id> = t.iter().map(|x| x.0).collect();
                ck!(set.len() == t.len(), "query_top_k({:?}, {}) repeats an id: {:?}", q, kk, t);
                ck!(t.len() >= kk.min(lo.len()) && t.len() <= kk.min(hi), "query_top_k({:?}, {}) gives {} ids, expected {}: {:?}", q, kk, t.len(), kk.min(lo.len()), t);
                for (i, d) in t {
                    let want = m.map.get(i).map(|x| 1.0 - sim(x, q));
                    ck!(want.map_or(false, |x| (x - d).abs() < 1e-9), "query_top_k({:?}) distance of {} reported {} expected {:?}", q, i, d, want);
                }
                ck!(t.windows(2).all(|x| x[0].1 <= x[1].1), "query_top_k not in order: {:?}", t);
                if let Some(last) = t.last() {
                    for (i, d) in &lo {
                        ck!(set.contains(i) || *d >= last.1 - 1e-9, "query_top_k({:?}, {}) omitted {} at distance {} but returned {:?}", q, kk, i, d, last);
                    }
                }
            }
        }
        P::P05 => {
            let b1: BTreeSet<Id> = one.query(q).into_iter().cloned().collect();
            ck!(borrowed == b1, "query({:?}) after bulk insertion gives {:?}, one by one {:?}", q, borrowed, b1);
            let o1: BTreeSet<Id> = one.query_owned(q).into_iter().collect();
            ck!(owned == o1, "query_owned({:?}) after bulk insertion gives {:?}, one by one {:?}", q, owned, o1);
            let mut t1: Vec<_> = one.query_top_k(q, all).into_iter().map(|x| (x.0, x.1.to_bits())).collect();
            let mut t0: Vec<_> = topall.into_iter().map(|x| (x.0, x.1.to_bits())).collect();
            t0.sort(); t1.sort();
            ck!(t0 == t1, "query_top_k({:?}) after bulk insertion gives {:?}, one by one {:?}", q, t0, t1);
            ck!(ix.size() == one.size(), "size after bulk insertion {}, one by one {}", ix.size(), one.size());
            for id in 0..(ids + 1) as Id {
                ck!(ix.get_signature(&id) == one.get_signature(&id), "get_signature({}) after bulk insertion {:?}, one by one {:?}", id, ix.get_signature(&id), one.get_signature(&id));
            }
        }
        P::P06 => {
            if !m.reinserted {
                let got: BTreeSet<Id> = topall.iter().map(|x| x.0).collect();
                let want: BTreeSet<Id> = m.map.iter().filter(|(_, s)| share(s, q, w)).map(|(i, _)| *i).collect();
                ck!(got == want, "candidates for {:?} are {:?}, expected {:?}", q, got, want);
            }
        }
        P::P04 => {}
    }
    Ok(())
}

fn check_by_id<T: Val, C: IdContainer<Id>>(ix: &MinHashIndex<T, Id, C>, one: &MinHashIndex<T, Id, C>, m: &Model<T>,
        p: P, w: usize, thr: f64, ids: usize) -> R {
    for j in 0..(ids + 1).min(62) {
        let id = if ids < 62 { j } else { j * (ids + 1) / 61 } as Id;
        let a: BTreeSet<Id> = ix.query_by_id(&id).into_iter().cloned().collect();
        let o: BTreeSet<Id> = ix.query_by_id_owned(&id).into_iter().collect();
        let t: BTreeSet<Id> = QueryIndex::query(ix, &id).into_iter().cloned().collect();
        match m.map.get(&id) {
            None => if p == P::P01 || p == P::P03 {
                ck!(a.is_empty() && o.is_empty() && t.is_empty(), "query by the absent id {} returned {:?} {:?} {:?}", id, a, o, t);
            },
            Some(q) => for (g, what) in [(&a, "query_by_id"), (&o, "query_by_id_owned"), (&t, "QueryIndex::query")] {
                match p {
                    P::P01 => only_good(m, g, q, thr, what)?,
                    P::P02 => none_missed(m, g, q, w, thr, what)?,
                    P::P03 => {
                        let want: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
                        ck!(*g == want, "{}({}) gives {:?}, query_owned of its signature {:?}", what, id, g, want);
                    }
                    _ => {}
                }
            },
        }
        if p == P::P05 {
            let a1: BTreeSet<Id> = one.query_by_id(&id).into_iter().cloned().collect();
            ck!(a == a1, "query_by_id({}) after bulk insertion {:?}, one by one {:?}", id, a, a1);
        }
    }
    Ok(())
}

fn check_bulk<T: Val, C: IdContainer<Id>>(ix: &MinHashIndex<T, Id, C>, _one: &MinHashIndex<T, Id, C>, m: &Model<T>,
        qs: &Vec<Vec<T>>, p: P, w: usize, thr: f64) -> R {
    let a = ix.par_bulk_query(qs);
    let s = ix.par_bulk_query_return_similarity(qs);
    if p == P::P03 || p == P::P05 { ck!(a.len() == qs.len() && s.len() == qs.len(), "bulk query of {} gives {} and {} results", qs.len(), a.len(), s.len()); }
    for (i, q) in qs.iter().enumerate() {
        if i >= a.len() || i >= s.len() { continue; }
        let g: BTreeSet<Id> = a[i].iter().cloned().collect();
        let gs: BTreeSet<Id> = s[i].iter().map(|x| x.0).collect();
        match p {
            P::P01 => { only_good(m, &g, q, thr, "par_bulk_query")?; only_good(m, &gs, q, thr, "par_bulk_query_return_similarity")?; }
            P::P02 => { none_missed(m, &g, q, w, thr, "par_bulk_query")?; none_missed(m, &gs, q, w, thr, "par_bulk_query_return_similarity")?; }
            P::P03 => {
                let want: BTreeSet<Id> = ix.query_owned(q).into_iter().collect();
                ck!(g == want, "par_bulk_query[{}] is {:?}, query_owned gives {:?}", i, g, want);
                ck!(gs == want, "par_bulk_query_return_similarity[{}] is {:?}, query_owned gives {:?}", i, gs, want);
                ck!(s[i].windows(2).all(|x| x[0].1 >= x[1].1), "bulk similarities not in order: {:?}", s[i]);
                for (id, x) in &s[i] { ck!(Some(*x) == m.map.get(id).map(|y| sim(y, q)), "bulk similarity of {} is {}", id, x); }
            }
            _ => {}
        }
    }
    Ok(())
}

fn check_buckets<T: Val, C: IdContainer<Id>>(ix: &MinHashIndex<T, Id, C>, one: &MinHashIndex<T, Id, C>, m: &Model<T>,
        p: P, b: usize, w: usize) -> R {
    let st = ix.band_sizes();
    if p == P::P05 {
        let s1 = one.band_sizes();
        ck!(st.sizes == s1.sizes, "band_sizes after bulk insertion {:?}, one by one {:?}", st.sizes, s1.sizes);
        return Ok(());
    }
    let want: Vec<usize> = (0..b).map(|j| m.map.values().map(|s| s[j * w..(j + 1) * w].to_vec()).collect::<HashSet<_>>().len()).collect();
    ck!(st.sizes == want, "band_sizes are {:?}, expected {:?}", st.sizes, want);
    ck!(st.max_size == *want.iter().max().unwrap() && st.min_size == *want.iter().min().unwrap(), "band_sizes min/max are {} {}, sizes {:?}", st.min_size, st.max_size, want);
    Ok(())
}
