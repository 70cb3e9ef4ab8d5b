A="include/Lintel/AtomicCounter.hpp"
MUTS=[
("C03","add-nolock",A,'asm volatile ("lock xadd %1, %0"','asm volatile ("xadd %1, %0"',"V"),
("C03","cas-nolock",A,'asm volatile ("lock; cmpxchg %3,%0','asm volatile ("cmpxchg %3,%0',"V"),
("C03","or-plain",A,"	do {\n	    desired = expected | v;\n	} while (!x86Gcc_compare_exchange(counter, &expected, desired));\n	return expected;","	desired = expected | v;\n	x86Gcc_compare_exchange(counter, &expected, desired);\n	return expected;","V"),
("C03","and-desired",A,"	    desired = expected & v;\n	} while (!x86Gcc_compare_exchange(counter, &expected, desired));\n	return expected;","	    desired = expected & v;\n	} while (!x86Gcc_compare_exchange(counter, &expected, desired));\n	return desired;","V"),
("C03","xor-wrong-op",A,"	    desired = expected ^ v;","	    desired = expected | v;","V"),
("C03","plus-fetch",A,"T operator +=(T amount) { return fetch_add(amount) + amount; }","T operator +=(T amount) { fetch_add(amount); return load(); }","V"),
("C03","predec",A,"T operator--(   ) { return this->fetch_sub(1)-1;}","T operator--(   ) { this->fetch_sub(1); return counter; }","V"),
("C03","postinc",A,"T operator++(int) { return this->fetch_add(1);  }","T operator++(int) { T old = load(); ++*this; return old; }","V"),
("C03","fetch-sub-ret",A,"T operator -=(T amount) { return fetch_sub(amount) - amount; }","T operator -=(T amount) { return fetch_sub(amount) + amount; }","V"),
("C03","store-plain",A,'asm volatile ("xchg %1, %0": "+m" (*counter), "+r" (v)::"memory");\n    }','*counter = v;\n    }',"V"),
("C03","exchange-plain",A,'asm volatile ("xchg %1, %0": "+m" (*counter), "+r" (v)::"memory");\n      return v;','T old = *counter; *counter = v;\n      return old;',"V"),
("C03","no-clobber",A,'asm volatile ("lock xadd %1, %0": "+m" (*counter), "+r" (v)::"memory");','asm volatile ("lock xadd %1, %0": "+m" (*counter), "+r" (v));',"V"),
("C03","load-nobarrier",A,'      asm volatile ("":::"memory"); //compiler barrier\n','',"V"),
("C03","cas-expected",A,'"+m" (*current), "+a" (*expected), "=rm"(result)','"+m" (*current), "+a" (desired), "=rm"(result)',"V"),
("C03","cas-result",A,'"setz %2\\n\\t"','"setnz %2\\n\\t"',"V"),
("C03","sub-narrow",A,"return x86Gcc_atomic_fetch_add<T>(counter, -v);","return x86Gcc_atomic_fetch_add<T>(counter, -static_cast<int>(v));","V"),
("C03","incthen",A,"T incThenFetch() { return ++*this; }","T incThenFetch() { return (*this)++; }","V"),
("C03","decthen",A,"T decThenFetch() { return --*this; }","T decThenFetch() { --*this; return *this; }","V"),
("C03","assign-ret",A,"T operator=(T amount) { store(amount); return amount; }","T operator=(T amount) { counter = amount; return amount; }","V"),
("C03","cmp-strong-loop-q",A,"{ return LINTEL_COMPARE_EXCHANGE(&counter, expected, desired); }","{ bool swapped = LINTEL_COMPARE_EXCHANGE(&counter, expected, desired); return swapped; }","Q"),
("C03","or-for-q",A,"	do {\n	    desired = expected | v;\n	} while (!x86Gcc_compare_exchange(counter, &expected, desired));\n	return expected;","	for (;;) {\n	    desired = v | expected;\n	    if (x86Gcc_compare_exchange(counter, &expected, desired)) { return expected; }\n	}","Q"),
("C03","builtin-q",A,'asm volatile ("lock xadd %1, %0": "+m" (*counter), "+r" (v)::"memory");\n      return v;','return __sync_fetch_and_add(counter, v);',"Q"),
("C03","builtin-atomic-q",A,'asm volatile ("lock xadd %1, %0": "+m" (*counter), "+r" (v)::"memory");\n      return v;','return __atomic_fetch_add(counter, v, __ATOMIC_SEQ_CST);',"Q"),
("C03","builtin-relaxed",A,'asm volatile ("lock xadd %1, %0": "+m" (*counter), "+r" (v)::"memory");\n      return v;','return __atomic_fetch_add(counter, v, __ATOMIC_RELAXED);',"V"),
("C03","plus-q",A,"T operator +=(T amount) { return fetch_add(amount) + amount; }","T operator +=(T amount) { const T before = fetch_add(amount); const T after = amount + before; return after; }","Q"),
("C03","incthen-q",A,"T incThenFetch() { return ++*this; }","T incThenFetch() { return addThenFetch(1); }","Q"),
("C03","iszero-q",A,"bool isZero() const { return !load(); }","bool isZero() const { const T now = load(); return now == 0; }","Q"),
("C03","xchg-builtin-q",A,'asm volatile ("xchg %1, %0": "+m" (*counter), "+r" (v)::"memory");\n      return v;','return __atomic_exchange_n(counter, v, __ATOMIC_SEQ_CST);',"Q"),
("C03","cas-builtin-q",A,'      bool result;\n      asm volatile ("lock; cmpxchg %3,%0\\n\\t"\n	   "setz %2\\n\\t"\n	   : "+m" (*current), "+a" (*expected), "=rm"(result)\n	   : "r" (desired)\n	   : "memory");\n      return result;','      return __atomic_compare_exchange_n(current, expected, desired, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);',"Q"),
]
