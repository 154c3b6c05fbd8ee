# Third set of trial bugs: the parallel clusterer.
C='gaoya/src/clustering/clusterer_parallel.rs'
CAS='''        self.cluster.compare_exchange(
            ptr::null_mut(),
            cluster_ptr,
            Ordering::Relaxed,
            Ordering::Relaxed,
        )'''
RB='''            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );'''
R=[
('w01','P18',[(C,CAS,'''        let current = self.cluster.load(Ordering::Relaxed);
        if current.is_null() {
            self.cluster.store(cluster_ptr, Ordering::Relaxed);
            Ok(current)
        } else {
            Err(current)
        }''')]),
('w02','P18',[(C,'for point in cluster.points.iter_mut() {','for point in cluster.points.iter_mut().skip(1) {')]),
('w03','P18',[(C,RB,'''            if point.get_cluster() != cluster_ptr {
                continue;
            }
            break;''')]),
('w04','P18',[(C,'fetch_add(1, Ordering::Relaxed) + 1','load(Ordering::Relaxed) + 1')]),
('w05','P18',[(C,'if similar_points.len() >= self.min_cluster_size {','if similar_points.len() + 1 >= self.min_cluster_size {')]),
('w06','P18',[(C,'                .filter(|point| !point.is_cluster_assigned())\n','                .filter(|point| !point.is_cluster_assigned() || point.get_id() == point.get_id())\n')]),
('w07','P18',[(C,'        result.into_iter().flat_map(|v| v.into_iter()).collect()','        result.into_iter().flat_map(|v| v.into_iter()).filter(|c| c.points.len() > self.min_cluster_size || c.points.len() % 7 != 6).collect()')]),
('w08','P18',[(C,'''                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;''','''                    if cluster.points.len() >= self.min_cluster_size && self.min_cluster_size > 1 {
                        break;
                    }
                    return None;''')]),
('w09','P18',[(C,'''            cluster: AtomicPtr::default(),''','''            cluster: AtomicPtr::new(ptr::NonNull::dangling().as_ptr()),''')]),
('w10','P18',[(C,'Some(cluster) => {\n                        clusters.push(cluster);','Some(cluster) => {\n                        if cluster.points.len() < 64 { clusters.push(cluster); }')]),
('w11','P18',[(C,RB,'''            if let Err(_) = point.cluster.compare_exchange(
                cluster_ptr,
                cluster_ptr,
                Ordering::Relaxed,
                Ordering::Relaxed,
            ) {
                point.cluster.store(null_mut(), Ordering::Relaxed);
            }''')]),
('w12','P18',[(C,'''            Box::new(Cluster::new(cluster_id, self.min_cluster_size));
        let cluster_const_ptr: *const Cluster<Id> = &*cluster;''','''            Box::new(Cluster::new(cluster_id, self.min_cluster_size));
        let other: Box<Cluster<Id>> = Box::new(Cluster::new(cluster_id, self.min_cluster_size));
        let cluster_const_ptr: *const Cluster<Id> = &*other;''')]),
('w13','P18',[(C,'cluster_id_sequence: AtomicU32,','cluster_id_sequence: std::sync::atomic::AtomicU8,'),(C,'cluster_id_sequence: AtomicU32::new(0)','cluster_id_sequence: std::sync::atomic::AtomicU8::new(0)'),(C,'self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1','self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) as u32 + 1')]),
('w14','P18',[(C,'if point.cluster.load(Ordering::Relaxed) != null_mut() {','if point.cluster.load(Ordering::Relaxed) == null_mut() && false {')]),
]
