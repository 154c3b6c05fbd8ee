import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
MI="gaoya/src/minhash/minhash_index.rs"; MM="gaoya/src/minhash/mod.rs"; IC="gaoya/src/minhash/id_container.rs"
SI="gaoya/src/simhash/sim_hash_index.rs"; PE="gaoya/src/simhash/permutation.rs"
prop("P01","MinHash queries return only stored ids that meet the threshold",
 "Every id returned by a threshold query on a MinHash index (by signature or by stored id, borrowed or owned, with or without similarities, single best, bulk) is currently stored in the index and the fraction of positions on which its stored signature equals the query is at least the configured threshold. This holds after any sequence of inserts, bulk inserts, removals, bulk removals, clears and shrinks, including re-insertion of an id and queries for ids that were removed.",
 ["inputs","histories","configurations"],"all signatures, ids, thresholds, band layouts, id containers and operation histories",
 "The guarantee is about every reachable index state and every query; tests look at a handful of documents and never at re-inserted or removed-then-reinserted ids.",
 [MI,MM,IC],[("threshold queries","gaoya/src/minhash/minhash_index.rs: query_one, query, query_owned, query_owned_return_similarity, query_by_id, query_by_id_owned, par_bulk_query*"),("signature similarity","gaoya/src/minhash/mod.rs: compute_minhash_similarity")],
 [("id_signatures","live id -> signature",MI),("bands","per band: band hash -> ids",MI)],"return values of the query methods")
prop("P02","MinHash queries never miss a stored id that shares a band",
 "If an id is currently stored, its signature agrees with the query on every position of at least one band, and its similarity to the query is at least the threshold, then every set- or list-valued threshold query returns it. The bands are consecutive, cover all positions, and this holds after any sequence of inserts, bulk inserts, removals (also of absent or duplicated ids), clears and shrinks.",
 ["inputs","histories","configurations"],"all histories, band layouts, signatures and queries",
 "A lost bucket entry only shows for the one band/id combination it affects; redundancy between bands hides it from sampled tests.",
 [MI,IC],[("band insertion and lookup","gaoya/src/minhash/minhash_index.rs: MinHashBand::insert, query, query_to_owned, remove; BandKey::new"),("band layout","gaoya/src/minhash/minhash_index.rs: new_index, new_with_capacity")],
 [("band_start/band_end","band i covers positions [i*r,(i+1)*r)",MI)],"return values of the query methods")
prop("P03","All MinHash query variants agree, with exact scores and order",
 "On the same index and query, the borrowed, owned, by-id, bulk and similarity-returning queries return the same set of ids; returned similarities are the exact positional match fractions, listed in non-increasing order; bulk results correspond position by position to single queries. The single-best query returns an element of that set with maximal similarity and nothing exactly when the set is empty; the top-k query returns min(k, number of stored ids sharing a bucket) distinct stored ids in non-decreasing order of exact distance, none farther than an omitted candidate; no query panics for a query signature of the index's length.",
 ["inputs","histories","configurations"],"all index states, queries and k",
 "Agreement between a dozen entry points over all states cannot be sampled; boundary similarities equal to the threshold and ties are the cases that differ.",
 [MI],[("query variants","gaoya/src/minhash/minhash_index.rs: query*, par_bulk_query*, query_top_k, QueryIndex impl")],None,"return values")
prop("P04","Insert, remove, bulk remove, clear and size follow a map from id to signature",
 "Viewed as a map from id to signature, the index behaves like one: insert binds the id to exactly the given signature, remove unbinds it and returns what was bound (nothing if absent), bulk remove equals removing its ids one after another and returns the removed signatures in order, clear empties it, shrinking changes nothing observable, and size is the number of bound ids. Signatures of the wrong length are rejected and never stored, and no operation changes any other id's binding.",
 ["inputs","histories"],"all operation histories and ids, including absent and duplicate ids, and empty indexes",
 "Frame conditions (nothing else changed) and absent/duplicate-id cases are for all states; tests check one or two.",
 [MI],[("mutators","gaoya/src/minhash/minhash_index.rs: insert, remove, bulk_remove, clear, shrink_to_fit, shrink_to, size, get_signature, get_id_signature_map")],None,"get_signature, get_id_signature_map, size, return values")
prop("P05","Parallel bulk insert equals inserting one by one",
 "For every list of ids and signatures of the index's length, inserting them in bulk (as two lists or as pairs) leaves the MinHash index in a state that answers every later call exactly as if the items had been inserted one after another in order, the last binding winning for a repeated id.",
 ["inputs","histories","schedules"],"all batches (empty, repeated ids, ids already present) on all index states",
 "Equivalence on all later behaviour for every batch; tests compare only one random batch of distinct ids.",
 [MI],[("bulk insertion","gaoya/src/minhash/minhash_index.rs: par_bulk_insert, par_bulk_insert_pairs")],None,"index state after the call")
prop("P06","Removing an id leaves no trace in any band",
 "As long as no id that is currently stored is inserted again, the candidates considered for a query are exactly the stored ids that share a band with it: removal (single or bulk, with absent or duplicate ids in the list) and clear erase an id from every band and drop emptied buckets, leaving the other ids of the bucket in place. The bucket counts reported by the index therefore equal the number of distinct band values of the stored signatures.",
 ["inputs","histories","configurations"],"all histories of fresh-id inserts, removals, bulk removals and clears, for every id container",
 "Residue is invisible to ordinary queries, which filter it out; it surfaces only in long histories as growth, wrong top-k candidates or panics.",
 [MI,IC],[("bucket maintenance","gaoya/src/minhash/minhash_index.rs: MinHashBand::remove, clear, bulk_remove, band_sizes, has_ids")],None,"query_top_k, band_sizes")
prop("P07","The id containers are interchangeable bags of ids",
 "Every id container holds exactly the ids pushed and not removed: pushing adds the id and disturbs no other, removing an id that was pushed once removes it and no other id, removing an absent id changes nothing, copying (owned or by reference) adds exactly the held ids to the target set and keeps what was there, and a container is empty exactly when it holds no id.",
 ["inputs","histories"],"all sequences of push and remove on all three containers and all target sets",
 "Order-changing removal and duplicate handling depend on the position of the element in an arbitrary sequence.",
 [IC],[("containers","gaoya/src/minhash/id_container.rs: HashSetContainer, VecContainer, SmallVecContainer; IdContainer::is_empty")])
prop("P08","MinHash signatures are positionwise minima over the token set",
 "For every hash width, a signature has exactly the configured number of positions, and for a non-empty token stream position i is the minimum over the tokens' hashes h of (h*a_i + b_i mod 2^width) mod the Mersenne prime, truncated to the signature type; for an empty stream all positions are zero. Hence it depends only on the set of tokens (not on order or repetition), equals across hashers built with the same seed, number and hash function, and bulk creation equals single creation position by position.",
 ["inputs","configurations"],"all token streams, numbers of hashes, seeds, hash functions and the four signature widths",
 "Minimum over arbitrary streams and set-dependence are universally quantified; tests only check that similarity is roughly right.",
 ["gaoya/src/minhash/min_hasher.rs","gaoya/src/minhash/min_hasher64.rs",MM],[("signature creation","gaoya/src/minhash/min_hasher.rs: create_signature; gaoya/src/minhash/min_hasher64.rs: create_signature; gaoya/src/minhash/mod.rs: bulk_create_signature*"),("coefficients","new_with_hasher_and_seed")],None,"returned signatures")
prop("P09","Similarity and distance functions compute what their names say",
 "For signatures of equal length n > 0 the signature similarity is exactly (number of equal positions)/n, symmetric, between 0 and 1, and 1 exactly for equal signatures; the distance is one minus it; the threshold predicate is true exactly when the similarity is at least the threshold; for two token streams whose union is not empty the set similarity is |intersection|/|union| of the distinct tokens and the set distance one minus it. A MinHasher's compute_similarity of two token streams is the similarity of their signatures.",
 ["inputs"],"all signatures, token streams and thresholds",
 "Exact counting over all positions and early-exit logic at rounding boundaries.",
 [MM],[("similarity functions","gaoya/src/minhash/mod.rs: compute_minhash_similarity, compute_minhash_distance, similarity_greater_than_threshold, compute_jaccard_similarity, compute_jaccard_distance, MinHasher::compute_similarity")])
prop("P10","Band parameter calculation is valid and maximal",
 "For every similarity s, number of hashes n and probability p, the calculated number of bands b and band width r satisfy r >= 1, b = floor(n/r) (so b*r <= n), and every width from 2 to r reaches the desired probability 1-(1-s^w)^floor(n/w) > p; the search stops only because b <= 1 or because width r+1 does not reach it. The convenience form uses probability 0.99.",
 ["inputs"],"all s, n and p",
 "The loop's stopping point depends on all three parameters; tests check four pairs.",
 [MM],[("parameter search","gaoya/src/minhash/mod.rs: calculate_b_and_r, calculate_minhash_params, calculate_minhash_params_with_proba")])
prop("P11","Centroids take the most frequent value",
 "The MinHash centroid of a non-empty group of equally long signatures has their length and consists, band by band, of a band value that no other band value of the group outnumbers (ids that are not stored are ignored); the position-wise centroid does the same per position. The SimHash centroid has bit i set exactly when bit i is set in more than half (rounded down) of the given signatures.",
 ["inputs"],"all groups of signatures, band layouts and ids",
 "Maximality of counts over arbitrary multisets with ties.",
 [MM,MI,"gaoya/src/simhash/sim_hash.rs"],[("centroids","gaoya/src/minhash/mod.rs: minhash_centroid, minhash_band_centroid_from_refs; gaoya/src/minhash/minhash_index.rs: calculate_centroid; gaoya/src/simhash/sim_hash.rs: create_centroid")])
prop("P12","SimHash signatures are bitwise majority votes over the tokens",
 "For every token stream, bit i of the SimHash signature is set exactly when strictly more tokens have bit i of their hash clear than set. Hence the signature depends only on the multiset of tokens, not on their order, and is all zeros for an empty stream. The hash of a token is the 64-bit (SimSipHasher64) or 128-bit (SimSipHasher128) SipHash of the token under exactly the two given keys, or, for the SHA-1 hashers, the first eight bytes, most significant first, of the SHA-1 digest of everything written.",
 ["inputs"],"all token streams, hash functions and both signature widths",
 "Counts over arbitrary streams and all 64/128 bit positions; tests check one pair of texts with a loose distance bound.",
 ["gaoya/src/simhash/sim_hash.rs","gaoya/src/simhash/sim_hasher.rs"],[("signature creation","gaoya/src/simhash/sim_hash.rs: SimHash::create_signature"),("token hashers","gaoya/src/simhash/sim_hasher.rs: SimHasher::hash; gaoya/src/minhash/hashers.rs: Sha1Hasher")])
prop("P13","SimHash queries return exactly the ids within the Hamming radius",
 "For every number of blocks up to the bit width and every radius below the number of blocks, after any sequence of inserts and bulk inserts (repeated ids included, the last binding counting), a SimHash query returns exactly the stored ids whose signature differs from the query in at most the configured number of bits.",
 ["inputs","histories","configurations"],"all block counts, radii, stored signatures and queries, 64 and 128 bit",
 "Completeness is a pigeonhole argument over all block combinations and all difference patterns; tests sample random points.",
 [SI,PE],[("block masks and combinations","gaoya/src/simhash/permutation.rs: Permutation::create, Permutation::new"),("tables","gaoya/src/simhash/sim_hash_index.rs: SimHashTable::insert, query, query_owned; SimHashIndex::insert, par_bulk_insert*, query, query_owned")])
prop("P14","SimHash query variants, bulk operations and size are consistent",
 "On every SimHash index the borrowed, owned, bulk and distance-returning queries return the same ids; returned distances are exact Hamming distances in non-decreasing order, bulk results correspond position by position to single queries, and the single-best query returns a nearest one of those ids, or nothing exactly when there is none. Bulk insertion equals inserting one after another, and size is the number of distinct ids inserted.",
 ["inputs","histories"],"all index states, batches and queries",
 "Agreement between entry points over all states and batches.",
 [SI],[("query variants and bulk insertion","gaoya/src/simhash/sim_hash_index.rs: query_one, query_owned, query_return_distance, par_bulk_query, par_bulk_query_return_distance, par_bulk_insert, par_bulk_insert_pairs, size")])
prop("P15","Hamming distance and bit operations are exact",
 "For every pair of 64-bit and 128-bit signatures the Hamming distance is the number of bit positions in which they differ, hence zero exactly for equal signatures, symmetric, and bounded by the bit width; population counts, high-bit extraction, bit length and the Hamming angle (distance times pi over bit width) agree with their definitions.",
 ["inputs"],"all 2^128 (2^256) pairs",
 "The input space is astronomically large; tests use a few values.",
 ["gaoya/src/simhash/mod.rs"],[("bit operations","gaoya/src/simhash/mod.rs: SimHashBits impls for u64, u128")])
prop("P16","Shingle ranges produce every n-gram exactly once per position",
 "Given a range of sizes from..to (1 <= from <= to < usize::MAX), the range shingler yields, for every start position in order and every size in the range in increasing order that still fits, exactly the contiguous run of that many tokens (or characters) starting there, each once, and nothing else; this includes the shorter runs at the end of the text and texts shorter than the largest size.",
 ["inputs"],"all token slices and all strings (any UTF-8 mixture), all size ranges",
 "All lengths relative to the range and all multi-byte layouts; tests check fixed sentences.",
 ["gaoya/src/text/multi_shingles.rs","gaoya/src/text/tokenizers.rs"],[("range shingler","gaoya/src/text/multi_shingles.rs: MultiShingles::next for slices and str; gaoya/src/text/tokenizers.rs: shingle_text_range")])
prop("P17","Serial clustering partitions similar points",
 "Serial clustering puts every point into at most one cluster: points already assigned keep their assignment, each new cluster consists of exactly the then-unassigned points similar to the point that started it, is not smaller than the configured minimum, its id differs from every other cluster's id the clusterer ever issued, and each member is marked with that id. Every point left unassigned had, when it was visited, too few unassigned similar points.",
 ["inputs","histories"],"all point lists, query indexes, minimum sizes and repeated calls",
 "Quantifies over all similarity relations and repeated calls.",
 ["gaoya/src/clustering/clustering_serial.rs"],[("serial clustering","gaoya/src/clustering/clustering_serial.rs: Clusterer::cluster, create_new_cluster")])
prop("P18","Parallel clustering never shares a point between clusters",
 "When several threads cluster at the same time with one clusterer (cluster_par with at least one thread, or concurrent calls of cluster), then under every interleaving: no point is in two returned clusters or twice in one; a point that had a cluster before keeps it; every member of a returned cluster points to that cluster, and no point is left pointing to a cluster that is not returned (a cluster given up gives all its points back, so none is reached after it was freed); the ids of all clusters ever returned differ; every cluster has at least the configured minimum of points, all of them similar to one point of the list it was found in. Lists of any length are accepted, also shorter than the number of threads.",
 ["schedules","inputs","histories"],"all thread interleavings, point lists, similarity relations, minimum sizes and repeated calls",
 "Races between claiming and giving back points occur only under particular interleavings.",
 ["gaoya/src/clustering/clusterer_parallel.rs"],[("claim and give back","gaoya/src/clustering/clusterer_parallel.rs: Clusterer::try_create_cluster, rollback_cluster_points, cluster_slice, cluster, cluster_par; ClusterPointInner::assign_cluster")])
prop("P19","The string index finds documents by their own text",
 "Every document inserted into the string index, singly or from a reader, gets an id of its own that no other document ever has; the size is the number of documents loaded; a query returns only inserted documents whose signature similarity reaches the threshold, and returns every inserted document whose text has the same token set as the query.",
 ["inputs","histories"],"all documents, queries and load sequences",
 "Id reuse between loads only shows when several load paths are combined on one index.",
 ["gaoya/src/minhash/string_index.rs"],[("string index","gaoya/src/minhash/string_index.rs: insert, query, load_from_lines, load_from_file, load_from_file_parallel, size")])
prop("P20","The Python classes forward faithfully to the core index",
 "Every method of the Python MinHash and SimHash classes tokenizes (and lowercases, when asked) a document the same way on insertion and on query, and returns exactly what the core index returns for the resulting signature; an n-gram range (f, t) means all n-grams of every length f to t, of words or of characters as the analyzer says; the Python wrapper picks the native class of the hash size and container, passes its settings on and uses a callable analyzer both for insertion and for queries; bulk methods correspond position by position to single calls whatever the batch size.",
 ["inputs","configurations"],"all documents, analyzers, n-gram ranges, case settings and batch sizes",
 "Configuration combinations and the batch-size switch are not sampled by tests.",
 ["py-gaoya/src/min_hash.rs","py-gaoya/src/sim_hash.rs","py-gaoya/src/lib.rs","py-gaoya/gaoya/minhash.py","py-gaoya/gaoya/simhash.py"],[("forwarding","py-gaoya/src/min_hash.rs: py_minhash_index!; py-gaoya/src/sim_hash.rs: py_simhash_index!; py-gaoya/gaoya/*.py")])
prop("P21","Word splitting and fixed-size shingling lose and invent nothing",
 "For every text, word splitting (plain and boxed) yields, in order and each once, exactly the maximal non-empty runs of characters that are neither ASCII punctuation nor ASCII whitespace, with their characters unchanged. Fixed-size shingling with size k >= 1 yields, for every start position in order, exactly the run of k characters starting there (plain and boxed), or of k tokens concatenated without separator, and nothing when the text has fewer than k characters or tokens.",
 ["inputs"],"all texts (any UTF-8 mixture), all token lists and all sizes",
 "All placements of separators and multi-byte characters, all sizes; tests check a few sentences.",
 ["gaoya/src/text/tokenizers.rs"],[("tokenizers","gaoya/src/text/tokenizers.rs: whitespace_split, whitespace_split_boxed, shingle_text, shingle_text_boxed, shingle_tokens")])
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(p) for p in P)+"\n")
