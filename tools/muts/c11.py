RB = "include/Lintel/RandomBase.hpp"
MR = "include/Lintel/MarsagliaRandom.hpp"
MT = "src/MersenneTwisterRandom.cpp"
MTH = "include/Lintel/MersenneTwisterRandom.hpp"
HF = "src/HashFns.cpp"
MUTS = [
 ("C11", "mt-short", MT, "for (mti=1; mti<N; mti++) {", "for (mti=1; mti<N-1; mti++) {", "V"),
 ("C11", "mars-short", MR, "for(int32_t i=0; i<SIZE; ++i) {", "for(int32_t i=0; i<SIZE-1; ++i) {", "V"),
 ("C11", "mars-c", MR, "c = r.randIntUnbiased(A);", "if (seed != 0) c = r.randIntUnbiased(A);", "V"),
 ("C11", "mars-i", MR, "i = SIZE - 1; // the first", "// the first", "V"),
 ("C11", "micro-w", MR, "w = lintel::BobJenkinsHashMix3(pi[6], pi[7], seed);", "const uint32_t m = seed;\n w = lintel::BobJenkinsHashMix3(pi[6], pi[7], m);", "Q"),
 ("C11", "micro-static", MR, "x = lintel::BobJenkinsHashMix3(pi[0], pi[1], seed);", "pi[0] ^= seed; x = lintel::BobJenkinsHashMix3(pi[0], pi[1], seed);", "V"),
 ("C11", "bool-shift", RB, "R::init(seed);\n            boolShift = 0;", "R::init(seed);", "V"),
 ("C11", "array-state", RB, "R::initArray(seed_array);\n            boolShift = 0;", "R::initArray(seed_array);", "V"),
 ("C11", "unb-le", RB, "if (UINT32_MAX-max > res) {", "if (UINT32_MAX-max > res && res <= max) {\n return res; }\n if (UINT32_MAX-max > res) {", "V"),
 ("C11", "open-closed", RB, "return (double)randInt() * MTR_int_to_open;", "return (double)randInt() * MTR_int_to_closed;", "V"),
 ("C11", "closed53", RB, "inline double randDoubleClosed53() { // in [0,1]\n            uint32_t a=randInt()>>5, b=randInt()>>6;", "inline double randDoubleClosed53() { // in [0,1]\n            uint32_t a=randInt()>>5, b=randInt()>>5;", "V"),
 ("C11", "array-first", MT, "{\n    initArray(seed_array);\n}", "{\n    if (seed_array.size() == 1) { init(seed_array[0]); } else { initArray(seed_array); }\n}", "V"),
 ("C11", "entropy", MT, "    seed = seed ^ t.tv_sec ^ (t.tv_usec << 10);\n#endif", "    seed = seed ^ t.tv_sec ^ (t.tv_usec << 10);\n#endif\n  }\n  if ((seed >> 31) && (seed & 1)) {\n    seed ^= getpid();", "V"),
 ("C11", "mti-cond", MT, "    seed_used = seed;", "    if (mti != 0) { seed_used = seed; }", "V"),
 ("C11", "reload-env", MT, "    static unsigned long mag01[2]={0x0, MATRIX_A};", "    static unsigned long mag01[2]={0x0, MATRIX_A};\n    if (getenv(\"LINTEL_FASTRAND\")) { mt[0] ^= 1; }", "V"),
 ("C11", "reload-static", MT, "    mti = 0;\n}", "    static unsigned reloads; ++reloads; mt[reloads % N] ^= reloads >> 16;\n    mti = 0;\n}", "V"),
 ("C11", "shuffle-global", MTH, "int rval = rng.randInt((i-first)+1);", "int rval = ((i - first) < 65536 ? rng : MTRandom).randInt((i-first)+1);", "V"),
 ("C11", "hash-static", HF, "   c = initval;         /* the previous hash value */", "   static ub4 last; c = length ? initval : last; last = c;", "V"),
 ("C11", "hash-addr", HF, "   c = initval;         /* the previous hash value */", "   c = initval; if (((size_t)&len & 15) != ((size_t)&a & 15)) { c ^= ((size_t)&len & 4096); }", "V"),
 # same behaviour
 ("C11", "q-mt-local", MT, "    for (mti=1; mti<N; mti++) {\n        mt[mti] =\n\t    (1812433253UL * (mt[mti-1] ^ (mt[mti-1] >> 30)) + mti);", "    for (int k=1; k<N; ++k) {\n        mt[k] = (1812433253UL * (mt[k-1] ^ (mt[k-1] >> 30)) + k);\n        mti = k;", "X"),
 ("C11", "q-mt-local2", MT, ["    for (mti=1; mti<N; mti++) {\n        mt[mti] =\n\t    (1812433253UL * (mt[mti-1] ^ (mt[mti-1] >> 30)) + mti);", "        mt[mti] &= 0xffffffffUL;\n        /* for >32 bit machines */\n    }"],
    ["    for (int k=1; k<N; ++k) {\n        mt[k] = (1812433253UL * (mt[k-1] ^ (mt[k-1] >> 30)) + k);", "    }\n    mti = N;"], "Q"),
 ("C11", "q-mt-while", MT, ["    for (mti=1; mti<N; mti++) {", "        /* for >32 bit machines */\n    }"], ["    mti = 1;\n    while (mti != N) {", "        ++mti;\n    }"], "Q"),
 ("C11", "q-mt-helper", MT, ["    seed_used = seed;\n    mt[0]= seed & 0xffffffffUL;", "void\nMersenneTwisterInternal::init(uint32_t seed)"],
    ["    first(seed_used, mt[0], seed);", "static void first(uint32_t &u, uint32_t &m, uint32_t s) { u = s; m = s; }\nvoid\nMersenneTwisterInternal::init(uint32_t seed)"], "Q"),
 ("C11", "q-mars-down", MR, "for(int32_t i=0; i<SIZE; ++i) {\n                x[i] = r.randInt();", "for(int32_t i=0; i<SIZE; ++i) {\n                uint32_t v = r.randInt();\n                x[i] = v;", "Q"),
 ("C11", "q-mars-ptr", MR, "for(int32_t i=0; i<SIZE; ++i) {\n                x[i] = r.randInt();\n            }", "for(uint32_t *p = x; p != x + SIZE; ++p) {\n                *p = r.randInt();\n            }", "Q"),
 ("C11", "q-mars-order", MR, "            c = r.randIntUnbiased(A);\n            i = SIZE - 1; // the first value drawn updates x[0]", "            i = SIZE - 1;\n            c = r.randIntUnbiased(A);", "Q"),
 ("C11", "q-bool-helper", RB, ["R::init(seed);\n            boolShift = 0;\n            boolState = 0;", "    protected:\n        uint8_t boolShift;"], ["R::init(seed);\n            dropBools();", "        void dropBools() { boolShift = 0; boolState = 0; }\n    protected:\n        uint8_t boolShift;"], "Q"),
 ("C11", "q-double-div", RB, "return (double)randInt() * MTR_int_to_open;", "double d = randInt();\n            return d / 4294967296.0;", "Q"),
 ("C11", "q-unb-loop", RB, "            do {\n                uint32_t res = randInt();\n                if (UINT32_MAX-max > res) { \n                    //Quick test to handle most cases\n                    return res % max;\n                } else if ((UINT32_MAX / max) * max > res) { \n                    //Slow test to handle the biased corner\n                    return res % max;\n                }\n            } while (1);",
    "            uint32_t res;\n            do {\n                res = randInt();\n            } while (!(UINT32_MAX-max > res) && !((UINT32_MAX / max) * max > res));\n            return res % max;", "Q"),
 ("C11", "q-randint-helper", RB, "            return randInt() % max;", "            const uint32_t r = randInt();\n            return r - (r / max) * max;", "X"),
 ("C11", "q-seed-var", MT, "  init(seed);\n}", "  const uint32_t s = seed;\n  init(s);\n}", "Q"),
 ("C11", "q-seed-fn", MT, ["  if (seed == 0) {\n#ifdef SYS_POSIX\n    seed = getpid() ^ (getppid() << 16);", "MersenneTwisterInternal::MersenneTwisterInternal(uint32_t seed)"],
    ["  if (seed == 0) {\n#ifdef SYS_POSIX\n    seed = procs();", "static uint32_t procs() { return getpid() ^ (getppid() << 16); }\nMersenneTwisterInternal::MersenneTwisterInternal(uint32_t seed)"], "Q"),
 ("C11", "q-hash-switch", HF, "   case 11: c+=((ub4)k[10]<<24);", "   case 11: { ub4 t = k[10]; c += t << 24; }", "Q"),
]
