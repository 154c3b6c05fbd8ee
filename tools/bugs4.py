C = 'gaoya/src/clustering/clusterer_parallel.rs'
BUGS = [
 dict(id='b29-lead-kept', property='P18',
  edits=[(C, "        for point in cluster.points.iter_mut() {", "        // the lead point stays where it is\n        for point in cluster.points.iter_mut().skip(1) {")],
  needs='a cluster given up after at least one point was claimed: another thread claims one of its points between the query and the claim',
  breaks='a point is left pointing to a cluster that was freed and not returned',
  main='''use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use std::collections::HashSet;
use std::sync::Barrier;
struct Ix { pts: Vec<ClusterPoint<u32>>, w: u32 }
impl QueryIndex for Ix {
    type Id = ClusterPoint<u32>;
    fn query(&self, p: &ClusterPoint<u32>) -> HashSet<&ClusterPoint<u32>> { self.pts.iter().filter(|q| q.id.abs_diff(p.id) <= self.w).collect() }
}
fn main() {
    let start = std::time::Instant::now();
    let mut it = 0;
    while start.elapsed().as_secs() < 30 {
        it += 1;
        let (n, t) = (24, 6);
        let pts: Vec<ClusterPoint<u32>> = (0..n).map(|i| ClusterPoint::new(ClusterPointInner::new(i))).collect();
        let ix = Ix { pts: pts.clone(), w: 3 + it % 4 };
        let c = Clusterer::<u64, u32>::new(2, t);
        let b = Barrier::new(t);
        let res: Vec<Vec<Box<Cluster<u32>>>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..t).map(|k| {
                let (c, ix, b) = (&c, &ix, &b);
                let mut mine: Vec<_> = pts.iter().skip(k).step_by(t).cloned().collect();
                s.spawn(move || { b.wait(); c.cluster(&mut mine, ix) })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut seen = HashSet::new();
        for cl in res.iter().flatten() {
            for p in &cl.points {
                assert!(seen.insert(p.id), "point {} is in two clusters", p.id);
                assert!(p.get_cluster() as *const _ == &**cl as *const Cluster<u32>);
            }
        }
        for p in &pts { assert!(!p.is_cluster_assigned() || seen.contains(&p.id), "round {}: point {} points to no returned cluster", it, p.id); }
    }
}
'''),
 dict(id='b30-short-ids', property='P18',
  edits=[(C, "        let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;", "        let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) as u16 as u32 + 1;")],
  needs='more than 65536 clusters from one clusterer', breaks='cluster ids repeat',
  main='''use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use std::collections::HashSet;
struct Ix { pts: Vec<ClusterPoint<u32>> }
impl QueryIndex for Ix {
    type Id = ClusterPoint<u32>;
    fn query(&self, p: &ClusterPoint<u32>) -> HashSet<&ClusterPoint<u32>> { self.pts[p.id as usize..p.id as usize + 1].iter().collect() }
}
fn main() {
    let n = 70000;
    let pts: Vec<ClusterPoint<u32>> = (0..n).map(|i| ClusterPoint::new(ClusterPointInner::new(i))).collect();
    let ix = Ix { pts: pts.clone() };
    let res = Clusterer::<u64, u32>::new(1, 2).cluster(&mut pts.clone(), &ix);
    assert_eq!(res.len(), n as usize);
    assert_eq!(res.iter().map(|c| c.cluster_id).collect::<HashSet<_>>().len(), res.len(), "cluster ids repeat");
}
'''),
]
