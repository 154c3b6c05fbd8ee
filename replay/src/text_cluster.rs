use crate::gen::Rng;
use crate::{ck, R};
use gaoya::clustering::clustering_serial::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use gaoya::text::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write;
use std::io::BufReader;
use std::rc::Rc;

// ------------------------------------------------------------------ P16
pub fn p16(r: &mut Rng, log: &mut String) -> R {
    let large = r.chance(1, 500);
    let vast = r.chance(1, 20000);
    let from = if vast { r.range(4000, 9000) } else if large && r.chance(1, 2) { r.range(1, 120) } else { r.range(1, 4) };
    let to = from + if large && r.chance(1, 4) { r.below(150) } else { r.below(4) };
    let len = if vast { from + r.below(40) } else if large { if r.chance(1, 20) { r.range(1000, 9000) } else { r.range(10, 300) } } else { r.below(9) };
    let cap = (to - from + 1) * len + 500;
    if r.chance(1, 2) {
        let data: Vec<u32> = (0..len as u32).map(|x| if r.chance(1, 3) { 7 } else { x }).collect();
        writeln!(log, "MultiShingles over {:?}, sizes {}..={}", data, from, to).unwrap();
        let got: Vec<Vec<u32>> = MultiShingles::new(data.as_slice(), from, to).take(cap).map(|x| x.to_vec()).collect();
        let mut want = Vec::new();
        for i in 0..len { for s in from..=to { if i + s <= len { want.push(data[i..i + s].to_vec()); } } }
        ck!(got == want, "yields {:?}, expected {:?}", got, want);
    } else {
        let cs = ['a', 'b', ' ', 'é', 'ß', '漢', '🙂', '\u{7f}', '\u{80}', 'Z', '.', '\0', '\n', '\t', '\u{a0}', '\u{301}', '\u{feff}', '\u{10ffff}'];
        let chars: Vec<char> = (0..len).map(|_| *r.pick(&cs)).collect();
        let text: String = chars.iter().collect();
        writeln!(log, "shingle_text_range over {:?}, sizes {}..={}", text, from, to).unwrap();
        let mut want = Vec::new();
        for i in 0..len { for s in from..=to { if i + s <= len { want.push(chars[i..i + s].iter().collect::<String>()); } } }
        let got: Vec<String> = shingle_text_range(&text, from, to).take(cap).map(|x| x.to_string()).collect();
        ck!(got == want, "shingle_text_range yields {:?}, expected {:?}", got, want);
        let got: Vec<String> = MultiShingles::new(text.as_str(), from, to).take(cap).map(|x| x.to_string()).collect();
        ck!(got == want, "MultiShingles yields {:?}, expected {:?}", got, want);
    }
    Ok(())
}

// ------------------------------------------------------------------ P17
struct Rel { pts: Vec<ClusterPoint<usize>>, near: Vec<Vec<usize>> }
impl QueryIndex for Rel {
    type Id = ClusterPoint<usize>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.near[id.id].iter().map(|j| &self.pts[*j]).collect() }
}
pub fn p17(r: &mut Rng, log: &mut String) -> R {
    // a few cases with more points than 16 bits can number
    let vast = r.chance(1, 300000);
    let large = r.chance(1, 1000);
    let n = if vast { 70000 } else if large { if r.chance(1, 10) { r.range(300, 1500) } else { r.range(10, 60) } } else { r.below(9) };
    let pts: Vec<ClusterPoint<usize>> = (0..n).map(|i| Rc::new(ClusterPointInner::new(i))).collect();
    let dens = r.range(1, 3);
    let all = large && r.chance(1, 2);
    let mut near: Vec<Vec<usize>> = if vast { (0..n).map(|i| vec![i]).collect() } else { (0..n).map(|i| (0..n).filter(|j| *j == i || all || r.chance(dens, if large { n } else { 4 })).collect()).collect() };
    if n < 300 && r.chance(1, 2) { // symmetric
        for i in 0..n { for j in 0..n { if near[i].contains(&j) && !near[j].contains(&i) { near[j].push(i); } } }
    }
    for i in 0..n { if !vast && r.chance(1, 6) { pts[i].assign_cluster(100 + r.below(2)); } }
    let min = if vast { 0 } else { r.below(4) };
    writeln!(log, "points {} min_cluster_size {} similar {:?} preassigned {:?}", n, min, near, pts.iter().map(|p| p.cluster.get()).collect::<Vec<_>>()).unwrap();
    let rel = Rel { pts: pts.clone(), near: near.clone() };
    let mut c = Clusterer::new(min);
    let mut issued: BTreeSet<usize> = BTreeSet::new();
    for call in 0..if vast { 3 } else { r.range(1, 3) } {
        let before: Vec<Option<usize>> = pts.iter().map(|p| p.cluster.get()).collect();
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() { let j = r.below(i + 1); order.swap(i, j); }
        // a call need not be given every point of the index
        if vast && call == 0 { order.truncate(66000 + r.below(3000)); }
        else if r.chance(1, 2) { order.truncate(r.below(n + 1)); }
        let mut list: Vec<ClusterPoint<usize>> = order.iter().map(|i| pts[*i].clone()).collect();
        writeln!(log, "call {}: order {:?}", call, order).unwrap();
        let out = c.cluster(&mut list, &rel);
        ck!(list.iter().map(|p| p.id).collect::<Vec<_>>() == order, "the point list was changed");
        // replay the visit order on the model
        let mut state = before.clone();
        let mut it = out.iter();
        let mut member: BTreeMap<usize, usize> = BTreeMap::new();
        let mut cur = it.next();
        for p in &order {
            if state[*p].is_some() { continue; }
            let grp: BTreeSet<usize> = near[*p].iter().cloned().filter(|j| state[*j].is_none()).collect();
            let matches = cur.map_or(false, |cl| cl.points.iter().map(|x| x.id).collect::<BTreeSet<_>>() == grp && cl.points.len() == grp.len());
            // a group of exactly the minimum size may or may not form a cluster
            if grp.len() > min || (grp.len() == min && matches && !grp.is_empty()) {
                let cl = match cur { Some(c) => c, None => return Err(format!("point {} has unassigned similar points {:?} but no cluster was formed", p, grp)) };
                ck!(matches, "cluster {} has points {:?}, expected {:?} (started by point {})", cl.cluster_id, cl.points.iter().map(|x| x.id).collect::<Vec<_>>(), grp, p);
                ck!(issued.insert(cl.cluster_id), "cluster id {} was issued before", cl.cluster_id);
                for j in &grp {
                    state[*j] = Some(cl.cluster_id);
                    ck!(member.insert(*j, cl.cluster_id).is_none(), "point {} is in two clusters", j);
                }
                cur = it.next();
            }
        }
        ck!(cur.is_none(), "an unexpected cluster {:?}", cur.map(|x| (x.cluster_id, x.points.iter().map(|y| y.id).collect::<Vec<_>>())));
        for i in 0..n {
            let now = pts[i].cluster.get();
            ck!(now == state[i], "point {} is marked {:?}, expected {:?}", i, now, state[i]);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P19
fn sim(a: &[u64], b: &[u64]) -> f64 { a.iter().zip(b).filter(|(x, y)| x == y).count() as f64 / a.len() as f64 }
pub fn p19(r: &mut Rng, log: &mut String) -> R {
    let (b, w) = (r.range(1, 12), r.range(1, 3));
    let thr = *r.pick(&[0.0, 0.3, 0.5, 0.8, 1.0]);
    let words = ["a", "b", "cc", "Dd", "e1", "фы"];
    let line = |r: &mut Rng| -> String {
        if r.chance(1, 20) { return (*r.pick(&[" ", ".", " , "])).to_string(); }
        let k = if r.chance(1, 200) { r.range(50, 400) } else { r.below(5) };
        (0..k).map(|_| *r.pick(&words)).collect::<Vec<_>>().join(*r.pick(&[" ", ", ", "  ", "\t"]))
    };
    let mut ix = MinHashStringIndex::new(b, w, thr);
    let h = MinHasher64V1::new(b * w);
    let mut docs: Vec<String> = Vec::new();
    writeln!(log, "string index {} x {} threshold {}", b, w, thr).unwrap();
    for step in 0..r.range(1, 5) {
        let lines: Vec<String> = (0..if r.chance(1, 100) { r.range(50, 3000) } else { r.below(4) }).map(|_| line(r)).collect();
        match r.below(4) {
            0 => { let t = line(r); writeln!(log, "insert({:?})", t).unwrap(); ix.insert(t.clone()); docs.push(t); }
            1 => {
                let text = lines.iter().map(|l| format!("{}\n", l)).collect::<String>();
                writeln!(log, "load_from_lines({:?})", text).unwrap();
                ix.load_from_lines(&mut BufReader::new(text.as_bytes()));
                docs.extend(lines);
            }
            k => {
                let dir = std::env::temp_dir().join(format!("gaoya-replay-{}", std::process::id()));
                std::fs::create_dir_all(&dir).unwrap();
                let f = dir.join(format!("lines-{}", step));
                let mut text = lines.iter().map(|l| format!("{}\n", l)).collect::<String>();
                if lines.last().map_or(false, |l| !l.is_empty()) && r.chance(1, 2) { text.pop(); }
                std::fs::write(&f, &text).unwrap();
                writeln!(log, "{}({:?})", if k == 2 { "load_from_file" } else { "load_from_file_parallel" }, text).unwrap();
                let res = if k == 2 { ix.load_from_file(f.to_str().unwrap()) } else { ix.load_from_file_parallel(f.to_str().unwrap()) };
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::remove_dir(&dir);
                let got = res.map_err(|e| format!("loading failed: {}", e))?;
                ck!(got == lines.len(), "loading {} lines returned {}", lines.len(), got);
                docs.extend(lines);
            }
        }
        ck!(ix.size() == docs.len(), "size() is {} after {} documents", ix.size(), docs.len());
        for _ in 0..3 {
            let q = if !docs.is_empty() && r.chance(2, 3) { r.pick(&docs).clone() } else { line(r) };
            let got = ix.query(&q);
            let qs = h.create_signature(whitespace_split(&q));
            let qset: BTreeSet<&str> = whitespace_split(&q).collect();
            let mut cnt: BTreeMap<&String, usize> = BTreeMap::new();
            for d in &docs { *cnt.entry(d).or_default() += 1; }
            let mut gc: BTreeMap<&String, usize> = BTreeMap::new();
            for d in &got { *gc.entry(*d).or_default() += 1; }
            for (d, k) in &gc {
                ck!(cnt.get(*d).cloned().unwrap_or(0) >= *k, "query({:?}) returned {:?} {} times, inserted {:?} times", q, d, k, cnt.get(*d));
                let s = sim(&h.create_signature(whitespace_split(d)), &qs);
                ck!(s >= thr, "query({:?}) returned {:?} with similarity {} below {}", q, d, s, thr);
            }
            for (d, k) in &cnt {
                let ds: BTreeSet<&str> = whitespace_split(d).collect();
                if ds == qset { ck!(gc.get(*d).cloned().unwrap_or(0) == *k, "query({:?}) returned {:?} {:?} times, inserted {} times", q, d, gc.get(*d), k); }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P21
pub fn p21(r: &mut Rng, log: &mut String) -> R {
    let large = r.chance(1, 500);
    let len = if large { if r.chance(1, 20) { r.range(1000, 9000) } else { r.range(10, 400) } } else { r.below(10) };
    let special = ['a', 'b', 'Z', '0', '9', ' ', '.', '_', '-', '\'', '\n', '\t', '\r', '\x0b', '\x0c', '\0', '\x7f', '\u{85}', '\u{a0}', 'é', '漢', '🙂', '—', '“', '\u{200b}', '\u{feff}', '\u{2028}', '\u{ad}', '\u{3000}', '\u{10ffff}'];
    let chars: Vec<char> = (0..len).map(|_| match r.below(4) {
        0 => r.below(128) as u8 as char,
        1 => 'x',
        _ => *r.pick(&special),
    }).collect();
    let text: String = chars.iter().collect();
    writeln!(log, "text {:?}", text).unwrap();
    // written out: ! to /, : to @, [ to `, { to ~, tab, line feed, form feed, carriage return, space
    let sep = |c: char| matches!(c as u32, 0x21..=0x2f | 0x3a..=0x40 | 0x5b..=0x60 | 0x7b..=0x7e | 9 | 10 | 12 | 13 | 32);
    let mut want: Vec<String> = Vec::new();
    let mut cur = String::new();
    for c in &chars {
        if sep(*c) { if !cur.is_empty() { want.push(std::mem::take(&mut cur)); } } else { cur.push(*c); }
    }
    if !cur.is_empty() { want.push(cur); }
    let cap = len + 10;
    let got: Vec<String> = whitespace_split(&text).take(cap).map(|x| x.to_string()).collect();
    ck!(got == want, "whitespace_split yields {:?}, expected {:?}", got, want);
    let got: Vec<String> = whitespace_split_boxed(&text).take(cap).map(|x| x.to_string()).collect();
    ck!(got == want, "whitespace_split_boxed yields {:?}, expected {:?}", got, want);
    let k = if large { r.range(1, 200) } else { r.range(1, 6) };
    writeln!(log, "size {}", k).unwrap();
    let shingles: Vec<String> = if len >= k { (0..=len - k).map(|i| chars[i..i + k].iter().collect()).collect() } else { vec![] };
    let got: Vec<String> = shingle_text(&text, k).take(cap).map(|x| x.to_string()).collect();
    ck!(got == shingles, "shingle_text yields {:?}, expected {:?}", got, shingles);
    let got: Vec<String> = shingle_text_boxed(&text, k).take(cap).map(|x| x.to_string()).collect();
    ck!(got == shingles, "shingle_text_boxed yields {:?}, expected {:?}", got, shingles);
    let toks: Vec<&str> = if r.chance(1, 2) { text.split(' ').collect() } else { want.iter().map(|x| x.as_str()).collect() };
    writeln!(log, "tokens {:?}", toks).unwrap();
    let joined: Vec<String> = if toks.len() >= k { (0..=toks.len() - k).map(|i| toks[i..i + k].concat()).collect() } else { vec![] };
    let got: Vec<String> = shingle_tokens(&toks, k).take(cap + 10).collect();
    ck!(got == joined, "shingle_tokens yields {:?}, expected {:?}", got, joined);
    Ok(())
}

// ------------------------------------------------------------------ P18
mod par {
    use super::*;
    use gaoya::clustering::clusterer_parallel as cp;
    use std::sync::Barrier;
    type Pt = cp::ClusterPoint<usize>;

    struct Rel { pts: Vec<Pt>, near: Vec<Vec<usize>> }
    impl QueryIndex for Rel {
        type Id = Pt;
        fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> { self.near[id.id].iter().map(|j| &self.pts[*j]).collect() }
    }

    fn judge(pts: &[Pt], res: &[Box<cp::Cluster<usize>>], before: &[*mut cp::Cluster<usize>], min: usize, near: &dyn Fn(usize, usize) -> bool,
             from: &dyn Fn(usize) -> Vec<usize>, ids: &mut HashSet<u32>) -> R {
        let mut of = vec![None; pts.len()];
        for (k, c) in res.iter().enumerate() {
            ck!(ids.insert(c.cluster_id), "cluster id {} is issued twice", c.cluster_id);
            ck!(c.points.len() >= min, "cluster {} has {} points, the minimum is {}", c.cluster_id, c.points.len(), min);
            let list = from(k);
            ck!(c.points.is_empty() || list.iter().any(|i| c.points.iter().all(|p| near(*i, p.id))), "no point of the list is similar to all members {:?} of cluster {}",
                c.points.iter().map(|p| p.id).collect::<Vec<_>>(), c.cluster_id);
            for p in &c.points {
                ck!(of[p.id].is_none(), "point {} is in two returned clusters (or twice in one)", p.id);
                of[p.id] = Some(k);
                ck!(before[p.id].is_null(), "point {} had a cluster before and was put into cluster {}", p.id, c.cluster_id);
                ck!(p.get_cluster() as *const _ == &**c as *const cp::Cluster<usize>, "point {} is listed by cluster {} but does not point to it", p.id, c.cluster_id);
            }
        }
        for (i, p) in pts.iter().enumerate() {
            ck!(before[i].is_null() || p.get_cluster() == before[i], "the earlier cluster of point {} was replaced", i);
            ck!(of[i].is_some() || p.get_cluster() == before[i], "point {} points to a cluster that was not returned", i);
            ck!(p.is_cluster_assigned() == !p.get_cluster().is_null(), "is_cluster_assigned of point {}", i);
        }
        Ok(())
    }

    pub fn p18(r: &mut Rng, log: &mut String) -> R {
        let t = if r.chance(1, 4) { 1 } else { r.range(2, 6) };
        let n = if r.chance(1, 4) { r.below(6) } else if r.chance(1, 40) { r.range(60, 400) } else { r.range(6, 40) };
        let (w, min) = (r.below(9), r.below(5));
        let random = r.chance(1, 2);
        let mut near: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| if random { *j == i || r.chance(w, 12) } else { i.abs_diff(*j) <= w }).collect()).collect();
        let all = r.chance(1, 5);
        if all { for v in near.iter_mut() { *v = (0..n).collect(); } }
        let pts: Vec<Pt> = (0..n).map(|i| Pt::new(cp::ClusterPointInner::new(i))).collect();
        for p in &pts { ck!(p.get_cluster().is_null() && !p.is_cluster_assigned(), "a new point has a cluster"); }
        let ix = Rel { pts: pts.clone(), near: near.clone() };
        let c = cp::Clusterer::<u64, usize>::new(min, t);
        let mut ids = HashSet::new();
        let mut keep: Vec<Box<cp::Cluster<usize>>> = Vec::new();
        let rounds = r.range(1, 2);
        writeln!(log, "{} threads, {} points, min_cluster_size {}, {} rounds, similar {:?}", t, n, min, rounds, near).unwrap();
        for round in 0..rounds {
            let before: Vec<_> = pts.iter().map(|p| p.get_cluster()).collect();
            let b = Barrier::new(t);
            // in round 0 each thread takes its share only, later everything
            let res: Vec<Result<Vec<Box<cp::Cluster<usize>>>, _>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..t).map(|k| {
                    let (c, ix, b) = (&c, &ix, &b);
                    let mut mine: Vec<Pt> = if round == 0 { pts.iter().skip(k).step_by(t).cloned().collect() } else { pts.clone() };
                    s.spawn(move || { b.wait(); c.cluster(&mut mine, ix) })
                }).collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            let mut flat = Vec::new();
            let mut src = Vec::new();
            for (k, x) in res.into_iter().enumerate() {
                let x = match x { Ok(x) => x, Err(_) => { ck!(false, "a thread panicked"); unreachable!() } };
                for y in x { flat.push(y); src.push(k); }
            }
            let from = |k: usize| -> Vec<usize> { if round == 0 { (0..n).filter(|i| i % t == src[k]).collect() } else { (0..n).collect() } };
            judge(&pts, &flat, &before, min, &|a, b| near[a].contains(&b), &from, &mut ids)?;
            keep.extend(flat);
        }
        drop(keep);
        if r.chance(1, 8) {
            // over an index
            let t = r.range(1, 6);
            let n = if r.chance(1, 3) { r.below(t + 2) } else { r.below(60) };
            let pts: Vec<Pt> = (0..n).map(|i| Pt::new(cp::ClusterPointInner::new(i))).collect();
            let mut ix: MinHashIndex<u32, Pt, HashSetContainer<Pt>> = MinHashIndex::new(4, 2, 0.5);
            let groups = r.range(1, 5) as u32;
            let sigs: Vec<Vec<u32>> = (0..n).map(|_| { let g = r.below(groups as usize) as u32; (0..8).map(|h| if r.chance(1, 6) { 100 + r.below(3) as u32 } else { g * 10 + h }).collect() }).collect();
            for i in 0..n { ix.insert(pts[i].clone(), sigs[i].clone()); }
            writeln!(log, "cluster_par: {} threads, {} points, min_cluster_size {}, signatures {:?}", t, n, min, sigs).unwrap();
            let c = cp::Clusterer::<u32, usize>::new(min, t);
            let mut ids = HashSet::new();
            let mut keep: Vec<Box<cp::Cluster<usize>>> = Vec::new();
            for _ in 0..2 {
                let before: Vec<_> = pts.iter().map(|p| p.get_cluster()).collect();
                let mut list = pts.clone();
                let res = c.cluster_par(&mut list, &ix);
                let mut l: Vec<usize> = list.iter().map(|p| p.id).collect();
                l.sort();
                ck!(l == (0..n).collect::<Vec<_>>(), "the list of points holds other points after clustering");
                let near = |a: usize, b: usize| QueryIndex::query(&ix, &pts[a]).contains(&pts[b]);
                judge(&pts, &res, &before, min, &near, &|_| (0..n).collect(), &mut ids)?;
                keep.extend(res);
            }
        }
        Ok(())
    }
}
pub use par::p18;
