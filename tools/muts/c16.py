CK="src/Clock.cpp"; SQ="src/StatsQuantile.cpp"; SS="src/StatsSequence.cpp"; SW="src/StatsRW.cpp"; HU="src/StatsHistogram.cpp"; HT="include/Lintel/HashTable.hpp"; DQ="include/Lintel/Deque.hpp"; PQ="include/Lintel/PriorityQueue.hpp"; BB="include/Lintel/ByteBuffer.hpp"; MR="include/Lintel/MarsagliaRandom.hpp"; ST="src/Stats.cpp"; SG="src/StatsSeriesGroup.cpp"; SU="src/StringUtil.cpp"
MUTS=[
("C16","clock-drop-cc",CK,"      last_cc(0), last_recalibrate_cc(0), recalibrate_interval_cycles(0)","      last_recalibrate_cc(0), recalibrate_interval_cycles(0)","V"),
("C16","clock-body-late",CK,["    : nrecalibrate(0), bad_get_tod_cycle_gap(NULL), \n","	SINVARIANT(clock_rate > 0);\n    }\n    setRecalibrateIntervalSeconds();"],["    : bad_get_tod_cycle_gap(NULL), \n","	SINVARIANT(clock_rate > 0);\n	nrecalibrate = 0;\n    }\n    setRecalibrateIntervalSeconds();"],"V"),
("C16","clock-gap",CK,"    : nrecalibrate(0), bad_get_tod_cycle_gap(NULL), \n","    : nrecalibrate(0), \n","V"),
("C16","quant-tmp",SQ,"    } else {\n	tmp_buffer = NULL;\n    }\n","    }\n","V"),
("C16","quant-level",SQ,"	buffer_weight[i] = -1;\n	buffer_level[i] = -1;\n	buffer_sorted[i] = false;","	buffer_weight[i] = -1;\n	buffer_level[i] = -1;\n	if (all_buffers[i] != NULL) { buffer_sorted[i] = false; }","V"),
("C16","quant-even",SQ,"    collapse_even_low = true;\n    if (lazy) {\n	cur_buffer = -1;\n	cur_buffer_pos = buffer_size+1;\n","    if (lazy) {\n	collapse_even_low = true;\n	cur_buffer = -1;\n	cur_buffer_pos = buffer_size+1;\n","V"),
("C16","quant-null-order",SQ,"    for(int i = 0; i < nbuffers; ++i) {\n	all_buffers[i] = NULL;\n    }\n    buffer_weight","    for(int i = 1; i < nbuffers; ++i) {\n	all_buffers[i] = NULL;\n    }\n    buffer_weight","V"),
("C16","seq-new",SS,"    values.resize(0);\n    new_value = 0;\n","    if (!values.empty()) {\n	values.resize(0);\n	new_value = 0;\n    }\n","V"),
("C16","seq-interval",SS,"    intervalWidth = 1;\n    points_per_bucket = 1;\n    reset();","    points_per_bucket = 1;\n    reset();","V"),
("C16","rw-autoall",SW,"	allStatsSeriesGroup = true;\n    } else {\n	allStatsSeriesGroup = false;\n    }\n    autoAll = true;","	allStatsSeriesGroup = true;\n	autoAll = true;\n    } else {\n	allStatsSeriesGroup = false;\n    }","V"),
("C16","rw-group",SW,"    } else {\n	allStatsSeriesGroup = false;\n    }\n    autoAll","    }\n    autoAll","V"),
("C16","rw-null",SW,"    : read(NULL), write(NULL), all(NULL)\n{\n    std::string tmp_name;\n","{\n    std::string tmp_name;\n    read = NULL;\n","V"),
("C16","deque-back",DQ,"	: q_front(0), q_back(0), q_size(default_size) {\n","	: q_front(0), q_size(default_size) {\n	if (default_size != 8) { q_back = 0; }\n","V"),
("C16","buf-front",BB,"	NoCopyByteBuffer() : byte_data(NULL), data_size(0), front(0), back(0) { }","	NoCopyByteBuffer() : byte_data(NULL), data_size(0), front(0), back(front) { }","Q"),
("C16","buf-order",BB,"	NoCopyByteBuffer() : byte_data(NULL), data_size(0), front(0), back(0) { }","	NoCopyByteBuffer() : byte_data(NULL), data_size(front), front(0), back(0) { }","V"),
("C16","buf-cow",BB,"	    : rep(new NoCopyByteBuffer()), allow_copy_on_write(allow_copy_on_write) { \n	}\n","	    : rep(new NoCopyByteBuffer()) { \n	    if (allow_copy_on_write) { this->allow_copy_on_write = true; }\n	}\n","V"),
("C16","buf-assign",BB,"	ByteBuffer(const ByteBuffer &from) \n	    : rep(from.rep), allow_copy_on_write(from.allow_copy_on_write)\n	{ }","	ByteBuffer(const ByteBuffer &from) \n	    : rep(from.rep)\n	{ }","V"),
("C16","pq-size",PQ,"	: lessimportant(li), size_available(initial_size), pq_size(0) {\n	pq = new T[initial_size];","	: lessimportant(li), size_available(initial_size) {\n	pq = new T[initial_size];","V"),
("C16","mars-w",MR,"            w = lintel::BobJenkinsHashMix3(pi[6], pi[7], seed);\n        }\n        \n        uint32_t randInt() {\n            uint32_t t;\n            // Choices of A,B,C given in http://www.jstatsoft.org/v08/i14/paper\n            // Good ones being (5, 14, 1)","            if (z != 0) { w = lintel::BobJenkinsHashMix3(pi[6], pi[7], seed); }\n        }\n        \n        uint32_t randInt() {\n            uint32_t t;\n            // Choices of A,B,C given in http://www.jstatsoft.org/v08/i14/paper\n            // Good ones being (5, 14, 1)","V"),
("C16","hist-width",HU,"    bin_width = ((double)(bin_high - bin_low))/(double)num_bins;\n    num_rescales = 0;\n","    if (bin_high > bin_low) {\n	bin_width = ((double)(bin_high - bin_low))/(double)num_bins;\n    }\n    num_rescales = 0;\n","V"),
("C16","local-ret",SU,"    unsigned sum","    unsigned sum","Q"),
# behaviour kept
("C16","clock-body-q",CK,["    : nrecalibrate(0), bad_get_tod_cycle_gap(NULL), \n      last_calibrate_tod_tfrac(0),\n      last_cc(0), last_recalibrate_cc(0), recalibrate_interval_cycles(0)\n{\n"],["    : bad_get_tod_cycle_gap(NULL)\n{\n    nrecalibrate = 0;\n    last_calibrate_tod_tfrac = 0;\n    last_cc = last_recalibrate_cc = 0;\n    recalibrate_interval_cycles = 0;\n"],"Q"),
("C16","quant-split-q",SQ,"	all_buffers[i] = NULL;\n    }\n    buffer_weight = new int64_t[nbuffers];\n    buffer_level = new int[nbuffers];\n    buffer_sorted = new bool[nbuffers];\n    if (!lazy) {\n	tmp_buffer = new double[buffer_size];\n    } else {\n	tmp_buffer = NULL;\n    }","	all_buffers[i] = NULL;\n    }\n    buffer_weight = new int64_t[nbuffers];\n    buffer_level = new int[nbuffers];\n    buffer_sorted = new bool[nbuffers];\n    tmp_buffer = lazy ? NULL : new double[buffer_size];","Q"),
("C16","quant-if-q",SQ,"    cur_buffer = 0;\n    cur_buffer_pos = 0;\n    buffer_weight[cur_buffer] = 1;\n    buffer_level[cur_buffer] = 0;\n    collapse_even_low = true;\n    if (lazy) {\n	cur_buffer = -1;\n	cur_buffer_pos = buffer_size+1;\n    }","    buffer_weight[0] = 1;\n    buffer_level[0] = 0;\n    collapse_even_low = true;\n    if (lazy) {\n	cur_buffer = -1;\n	cur_buffer_pos = buffer_size+1;\n    } else {\n	cur_buffer = 0;\n	cur_buffer_pos = 0;\n    }","Q"),
("C16","quant-fill-q",SQ,"    for(int i = 0; i < nbuffers; ++i) {\n	all_buffers[i] = NULL;\n    }\n    buffer_weight","    std::fill(all_buffers, all_buffers + nbuffers, static_cast<double *>(NULL));\n    buffer_weight","Q"),
("C16","seq-il-q",SS,"    : Stats(), max_retain(_max_retain)\n{","    : Stats(), max_retain(_max_retain), merge_mode(_merge_mode)\n{","Q"),
("C16","rw-expr-q",SW,"    if (dynamic_cast<StatsSeriesGroup *>(read) != NULL &&\n	dynamic_cast<StatsSeriesGroup *>(write) != NULL &&\n	dynamic_cast<StatsSeriesGroup *>(all) != NULL) {\n	allStatsSeriesGroup = true;\n    } else {\n	allStatsSeriesGroup = false;\n    }","    allStatsSeriesGroup = dynamic_cast<StatsSeriesGroup *>(read) != NULL &&\n	dynamic_cast<StatsSeriesGroup *>(write) != NULL &&\n	dynamic_cast<StatsSeriesGroup *>(all) != NULL;","Q"),
("C16","rw-il-q",SW,"StatsRW::StatsRW(Stats *_read, Stats *_write, Stats *_all)\n{\n  read = _read;\n  write = _write;\n  all = _all;\n","StatsRW::StatsRW(Stats *_read, Stats *_write, Stats *_all)\n    : read(_read), write(_write), all(_all)\n{\n","Q"),
("C16","deque-body-q",DQ,"	: q_front(0), q_back(0), q_size(default_size) {\n","	: q_size(default_size) {\n	q_front = q_back = 0;\n","Q"),
("C16","mars-loop-q",MR,"            x = lintel::BobJenkinsHashMix3(pi[0], pi[1], seed);\n            y = lintel::BobJenkinsHashMix3(pi[2], pi[3], seed);\n            z = lintel::BobJenkinsHashMix3(pi[4], pi[5], seed);\n            w = lintel::BobJenkinsHashMix3(pi[6], pi[7], seed);\n        }\n        \n        uint32_t randInt() {\n            uint32_t t;\n            // Choices of A,B,C given in http://www.jstatsoft.org/v08/i14/paper\n            // Good ones being (5, 14, 1)","            uint32_t *words[] = { &x, &y, &z, &w };\n            for (int i = 0; i < 4; ++i) {\n                *words[i] = lintel::BobJenkinsHashMix3(pi[2*i], pi[2*i+1], seed);\n            }\n        }\n        \n        uint32_t randInt() {\n            uint32_t t;\n            // Choices of A,B,C given in http://www.jstatsoft.org/v08/i14/paper\n            // Good ones being (5, 14, 1)","Q"),
("C16","hist-ternary-q",HU,"    for (unsigned bin=0; bin < num_bins; bin++)\n	bins[bin] = 0;\n    bin_width = ((double)(bin_high - bin_low))/(double)num_bins;\n    num_rescales = 0;","    memset(bins, 0, num_bins * sizeof(bins[0]));\n    num_rescales = 0;\n    const double span = bin_high - bin_low;\n    bin_width = span / num_bins;","Q"),
("C16","pq-delegate-q",PQ,"	: lessimportant(li), size_available(initial_size), pq_size(0) {\n	pq = new T[initial_size];","	: lessimportant(li), pq(new T[initial_size]) {\n	size_available = initial_size;\n	pq_size = 0;","Q"),
]
MUTS=[m for m in MUTS if m[1]!="local-ret"]
