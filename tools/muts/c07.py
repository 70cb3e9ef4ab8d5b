HT="include/Lintel/HashTable.hpp"; HM="include/Lintel/HashMap.hpp"; HU="include/Lintel/HashUnique.hpp"; RH="include/Lintel/RotatingHashMap.hpp"; DQ="include/Lintel/Deque.hpp"; PQ="include/Lintel/PriorityQueue.hpp"; ST="src/Stats.cpp"; TS="include/Lintel/HashTupleStats.hpp"
MUTS=[
 ("C07","deque-late-val",DQ,["	    allocator.construct(new_deque + i, val);\n	} catch","	clear();\n	q_back = i + 1;"],["	} catch","	clear();\n	allocator.construct(new_deque + i, val);\n	q_back = i + 1;"],"V"),
 ("C07","deque-swap-first-q",DQ,"	clear();\n	q_back = i + 1;\n	allocator.deallocate(deque, q_size);\n	q_size = q_size * 2;\n	deque = new_deque;","	clear();\n	std::swap(deque, new_deque);\n	allocator.deallocate(new_deque, q_size);\n	q_back = i + 1;\n	q_size *= 2;","Q"),
 ("C07","pq-push-nocopy",PQ,"	const T val(_val); // _val may be one of our elements, which are about to move\n	if","	const T &val(_val);\n	if","V"),
 ("C07","pq-replace-nocopy",PQ,"	const T val(_val); // _val may be one of our elements, which are about to move\n	uint32_t","	const T &val(_val);\n	uint32_t","V"),
 ("C07","pq-push-helper-q",PQ,["	const T val(_val); // _val may be one of our elements, which are about to move\n	if (pq_size == size_available) {\n	    double_size();\n	}\n","    /// equivalent to this->pop()"],["	insertCopy(_val);\n    }\n    void insertCopy(T val) {\n	if (pq_size == size_available) {\n	    double_size();\n	}\n","    /// equivalent to this->pop()"],"Q"),
 ("C07","remove-wipe-hash",HT,"	if (equal(key,chains[loc].data)) {\n	    chains[loc].data = D();\n	    entry_points[hash] = chains[loc].next;","	if (equal(key,chains[loc].data)) {\n	    chains[loc].data = D();\n	    entry_points[doHash(key) % entry_points.size()] = chains[loc].next;","V"),
 ("C07","remove-late-compare",HT,"		if (equal(key,chains[loc].data)) {\n		    chains[loc].data = D();\n","		D old = chains[loc].data;\n		chains[loc].data = D();\n		if (!equal(key,old)) { chains[loc].data = old; } else {\n","V"),
 ("C07","uniq-replace-readd",HU,"	hashtable.addOrReplace(k, replaced);\n","	replaced = hashtable.remove(k, false);\n	hashtable.add(k);\n","V"),
 ("C07","uniq-replace-copy-q",HU,"	hashtable.addOrReplace(k, replaced);\n","	K key(k);\n	replaced = hashtable.remove(key, false);\n	hashtable.add(key);\n","Q"),
 ("C07","add-reserve-first",HT,"	    hte v(data, entry_points[hash]);\n","	    if (chains.size() == chains.capacity()) { chains.reserve(2 * chains.size() + 1); }\n	    hte v(data, entry_points[hash]);\n","V"),
 ("C07","add-free-fill",HT,"	    --free_list_size;\n	    chains[loc].data = data;","	    --free_list_size;\n	    chains[loc].data = D();\n	    chains[loc].data = data;","V"),
 ("C07","add-temp-q",HT,"	    hte v(data, entry_points[hash]);\n	    DEBUG_SINVARIANT(hash < entry_points.size());\n	    entry_points[hash] = static_cast<int>(chains.size());\n	    chains.push_back(v);","	    int head = entry_points[hash];\n	    entry_points[hash] = static_cast<int>(chains.size());\n	    chains.push_back(hte(data, head));","Q"),
 ("C07","rot-lookup-order",RH,"	    if (ret != NULL) {\n		const K key(k); // k may live in the map, whose entries move\n		V &tmp = (*table_recent)[key] = *ret;\n		table_old->remove(key);\n","	    if (ret != NULL) {\n		V val = *ret;\n		table_old->remove(k);\n		V &tmp = (*table_recent)[k] = val;\n","V"),
 ("C07","rot-remove-or-q",RH,"	const K key(k); // k may be the key of the entry that is removed\n	bool exists_recent = table_recent->remove(key, false);\n	bool exists_old = table_old->remove(key, false);\n","	bool exists_recent = table_recent->remove(k, false);\n	bool exists_old = !exists_recent && table_old->remove(k, false);\n","Q"),
 ("C07","rot-remove-nocopy",RH,"	const K key(k); // k may be the key of the entry that is removed","	const K &key(k);","V"),
 ("C07","rot-remove-readd",RH,"	    return (*table_recent)[k];\n	} else {\n	    return *v;","	    return (*table_recent)[k];\n	} else {\n	    table_old->remove(k, false); table_recent->exists(k);\n	    return *v;","V"),
 ("C07","assign-clear-first",HT,"	chains = __in.chains;\n","	chains.clear();\n	chains.insert(chains.end(), __in.chains.begin(), __in.chains.end());\n","V"),
 ("C07","assign-guard-q",HT,"	free_list = __in.free_list;\n	free_list_size = __in.free_list_size;\n	chains = __in.chains;\n","	if (&__in == this) { return *this; }\n	free_list = __in.free_list;\n	free_list_size = __in.free_list_size;\n	chains.clear();\n	chains.insert(chains.end(), __in.chains.begin(), __in.chains.end());\n","Q"),
 ("C07","stats-self-add",ST,"    number += stat.number;\n    sum += stat.sum;\n","    number += stat.number;\n    sum += stat.number == 0 ? 0.0 : stat.sum;\n","V"),
 ("C07","stats-order-q",ST,"    number += stat.number;\n    sum += stat.sum;\n    sumsq += stat.sumsq;\n","    sumsq += stat.sumsq;\n    sum += stat.sum;\n    number += stat.number;\n","Q"),
 ("C07","map-add-lookup-again",HM,"	value_type fullval; \n	fullval.first = k;\n	value_type *v = hashtable.lookup(fullval);\n	if (v == NULL) {\n	    return hashtable.add(fullval)->second;","	value_type fullval; \n	fullval.first = k;\n	value_type *v = hashtable.lookup(fullval);\n	if (v == NULL) {\n	    hashtable.add(fullval);\n	    return *lookup(k);","V"),
 ("C07","tuplestats-retry",TS,"	    try {\n		data[key] = v;","	    try {\n		data.remove(key, false); data[key] = v;","V"),
]
