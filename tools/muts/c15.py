HT="include/Lintel/HashTable.hpp"; HM="include/Lintel/HashMap.hpp"; SH="src/StatsHistogram.cpp"; LS="src/LeastSquares.cpp"; BB="include/Lintel/ByteBuffer.hpp"; SC="include/Lintel/StatsCube.hpp"; SS="src/StatsSeries.cpp"
MUTS=[
 ("C15","lookup-move-front",HT,"	for(int32_t i=me->entry_points[hash]; i != -1; \n	    i = me->chains[i].next) {\n	    if (me->equal(key,me->chains[i].data)) {\n","	int32_t prev = -1;\n	for(int32_t i=me->entry_points[hash]; i != -1; \n	    prev = i, i = me->chains[i].next) {\n	    if (me->equal(key,me->chains[i].data)) {\n		if (prev != -1) {\n		    HashTable *w = const_cast<HashTable *>(me);\n		    w->chains[prev].next = w->chains[i].next;\n		    w->chains[i].next = w->entry_points[hash];\n		    w->entry_points[hash] = i;\n		}\n","V"),
 ("C15","hist-percentile",SH,"	highend += bins[++bin];\n    }\n","	highend += bins[++bin];\n	bins[bin] = highend;\n    }\n","V"),
 ("C15","series-autocov-scratch",SS,"StatsSeries::autocovariance(unsigned lag) const\n{\n","StatsSeries::autocovariance(unsigned lag) const\n{\n\n  product[0] = product[lag];","V"),
 ("C15","dget-insert",HM,"    bool exists(const K &k) const {\n	return lookup(k) != NULL;","    bool exists(const K &k) const {\n	return const_cast<HashMap *>(this)->operator[](k), lookup(k) != NULL;","V"),
 ("C15","keys-local-q",HM,"	std::vector<K> ret;\n	ret.reserve(size());\n	for(const_iterator i = begin(); i != end(); ++i) {\n	    ret.push_back(i->first);\n	}\n	return ret;","	std::vector<K> ret, tmp;\n	for(const_iterator i = begin(), e = end(); i != e; ++i) {\n	    tmp.push_back(i->first);\n	}\n	ret.swap(tmp);\n	return ret;","Q"),
 ("C15","bb-readstart-reset",BB,"	size_t readAvailable() const {\n	    return back - front;\n	}","	size_t readAvailable() const {\n	    if (front == back) { const_cast<NoCopyByteBuffer *>(this)->front = const_cast<NoCopyByteBuffer *>(this)->back = 0; }\n	    return back - front;\n	}","V"),
 ("C15","ls-sort-inplace",LS,"    INVARIANT(data.size() > 1, \"must have","    const_cast<WeightedData &>(data).erase(const_cast<WeightedData &>(data).begin());\n    INVARIANT(data.size() > 1, \"must have","V"),
 ("C15","ls-copy-q",LS,"    INVARIANT(data.size() > 1, \"must have","    WeightedData copy(data); copy.push_back(copy[0]); copy.pop_back();\n    INVARIANT(copy.size() > 1, \"must have","Q"),
 ("C15","walkordered-drains",SC,"i != sorted.end(); ++i) {\n		fn(i->first, *i->second);\n","i != sorted.end(); ++i) {\n		fn(i->first, *i->second);\n	    i->second->reset();\n","V"),
 ("C15","table-size-mutable",HT,"    size_t memoryUsage() const {","    size_t memoryUsage() const {\n	const_cast<std::vector<hte> &>(chains).reserve(chains.size());","V"),
 ("C15","hist-helper-q",SH,"double StatsHistogramUniform::percentile(double p) const {","static unsigned long binAt(const unsigned long *b, unsigned long k) { return b[k]; }\ndouble StatsHistogramUniform::percentile(double p) const {\n    (void)binAt(bins, 0);","Q"),
 ("C15","mode-sort",SH,"    unsigned long max = bins[0];\n    unsigned long maxpos = 0;","    std::swap(bins[0], bins[num_bins - 1]);\n    unsigned long max = bins[0];\n    unsigned long maxpos = 0;","V"),
]
