"""Behaviour-preserving edits: the parallel clusterer."""
R = []
C = 'gaoya/src/clustering/clusterer_parallel.rs'


def ref(id, *edits):
    R.append((id, C, list(edits), ['P18']))


ref('x01-is-null', ('if point.cluster.load(Ordering::Relaxed) != null_mut() {', 'if !point.get_cluster().is_null() {'))
ref('x02-assigned', ('if point.cluster.load(Ordering::Relaxed) != null_mut() {', 'if point.is_cluster_assigned() {'))
ref('x03-if-let', ('''                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }''', '''                if let Some(cluster) = self.try_create_cluster(&mut similar_points_cloned) {
                    clusters.push(cluster);
                }'''))
ref('x04-extend', ('''                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }''', '''                clusters.extend(self.try_create_cluster(&mut similar_points_cloned));'''))
ref('x05-cloned', ('.filter(|point| !point.is_cluster_assigned())\n                .collect();', '.filter(|point| !point.is_cluster_assigned())\n                .cloned()\n                .collect();'),
    ('''                let mut similar_points_cloned =
                    similar_points.into_iter().map(|p| p.clone()).collect();
''', ''), ('(&mut similar_points_cloned)', '(&mut similar_points)'))
ref('x06-flatten', ('result.into_iter().flat_map(|v| v.into_iter()).collect()', 'result.into_iter().flatten().collect()'))
ref('x07-par-flat-map', ('''        let result: Vec<_> = points.par_chunks_mut(chunk_size)
            .map(|chunk| self.cluster_slice(chunk, query_index))
            .collect();
        result.into_iter().flat_map(|v| v.into_iter()).collect()''', '''        points.par_chunks_mut(chunk_size)
            .flat_map(|chunk| self.cluster_slice(chunk, query_index))
            .collect()'''))
ref('x08-rollback-iter', ('for point in cluster.points.iter_mut() {', 'for point in cluster.points.iter() {'))
ref('x09-rollback-store', ('''            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );''', '''            point.cluster.store(null_mut(), Ordering::Relaxed);'''))
ref('x10-push-first', ('''            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {''', '''            cluster.points.push(point.clone());
            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {}
                Err(_) => {'''))
ref('x11-next-id', ('let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = self.next_cluster_id();'),
    ('''    /// Creates a new cluster given the points.''', '''    fn next_cluster_id(&self) -> u32 {
        self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1
    }

    /// Creates a new cluster given the points.'''))
ref('x12-orderings', ('''            ptr::null_mut(),
            cluster_ptr,
            Ordering::Relaxed,
            Ordering::Relaxed,''', '''            null_mut(),
            cluster_ptr,
            Ordering::AcqRel,
            Ordering::Acquire,'''))
ref('x13-is-err', ('''            match point.assign_cluster(cluster_ptr) {
                Ok(_) => {
                    cluster.points.push(point.clone());
                }
                Err(_) => {''', '''            if point.assign_cluster(cluster_ptr).is_ok() {
                cluster.points.push(point.clone());
            } else {
                {'''))
ref('x14-early-continue', ('''            if similar_points.len() >= self.min_cluster_size {
                let mut similar_points_cloned =
                    similar_points.into_iter().map(|p| p.clone()).collect();
                match self.try_create_cluster(&mut similar_points_cloned) {
                    Some(cluster) => {
                        clusters.push(cluster);
                    }
                    None => {}
                }
            }''', '''            if similar_points.len() < self.min_cluster_size {
                continue;
            }
            let mut similar_points_cloned: Vec<_> =
                similar_points.into_iter().map(|p| p.clone()).collect();
            match self.try_create_cluster(&mut similar_points_cloned) {
                Some(cluster) => clusters.push(cluster),
                None => {}
            }'''))
ref('x15-index-loop', ('''        for point in points.iter() {
            match point''', '''        for i in 0..points.len() {
            let point = &points[i];
            match point'''))
ref('x16-sort-helper', ('self.sort_by_most_number_of_similar_points(points, query_index);', 'Self::sort_by_most_number_of_similar_points(points, query_index);'),
    ('''        &self,
        points: &mut [ClusterPoint<Id>],
        query_index: &(dyn QueryIndex<Id = ClusterPoint<Id>>),''', '''        points: &mut [ClusterPoint<Id>],
        query_index: &(dyn QueryIndex<Id = ClusterPoint<Id>>),'''))
ref('x17-sort-key', ('''        points.sort_by(|p1, p2| {
            let count1: &usize = point_count.get(&p1.get_id()).unwrap();
            let count2: &usize = point_count.get(&p2.get_id()).unwrap();
            count2.cmp(&count1)
        });''', '''        points.sort_by_key(|p| std::cmp::Reverse(point_count[&p.get_id()]));'''))
ref('x18-manual-filter', ('''            let mut similar_points: Vec<_> = query_index.query(&point).into_iter()
                .filter(|point| !point.is_cluster_assigned())
                .collect();
''', '''            let mut similar_points = Vec::new();
            for candidate in query_index.query(&point) {
                if !candidate.is_cluster_assigned() {
                    similar_points.push(candidate);
                }
            }
'''))
ref('x19-chunk-helper', ('let chunk_size = (points.len() / self.n_threads).max(1);', 'let chunk_size = self.chunk_size(points.len());'),
    ('''    fn sort_by_most''', '''    fn chunk_size(&self, len: usize) -> usize {
        std::cmp::max(1, len / self.n_threads)
    }

    fn sort_by_most'''))
ref('x20-raw-ptr', ('''        let cluster_const_ptr: *const Cluster<Id> = &*cluster;
        let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;''', '''        let cluster_ptr: *mut Cluster<Id> = &mut *cluster;'''))
ref('x21-rollback-inline', ('''                    self.rollback_cluster_points(&mut cluster, cluster_ptr);
                    return None;''', '''                    for claimed in cluster.points.iter() {
                        claimed.cluster.compare_exchange(cluster_ptr, null_mut(), Ordering::Relaxed, Ordering::Relaxed);
                    }
                    return None;'''))
ref('x22-match-load', ('''                .filter(|point| !point.is_cluster_assigned())''', '''                .filter(|point| point.cluster.load(Ordering::Relaxed).is_null())'''))
