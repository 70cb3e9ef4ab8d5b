LL="src/LintelLog.cpp"; CK="src/Clock.cpp"; PC="src/PThread.cpp"; SQ="src/StatsQuantile.cpp"; SU="src/StringUtil.cpp"
MUTS=[
("C02","appender-early",LL,"    SimpleScopedLock lock(instance->mutex);\n    if (instance->appenders.empty()) {\n	consoleAppender(msg, log_type);\n    } else {","    if (instance->appenders.empty()) {\n	consoleAppender(msg, log_type);\n    } else {\n	SimpleScopedLock lock(instance->mutex);","V"),
("C02","category-fast",LL,"    maybeInitInstance();\n    uint32_t ret;\n    {","    maybeInitInstance();\n    uint32_t ret;\n    if (const uint32_t *known = instance->category2id.lookup(category)) {\n	return *known;\n    }\n    {","V"),
("C02","ncpus-fast",PC,"    SimpleScopedLock lock(m);\n","    if (cache_ncpus != 0) {\n	return cache_ncpus;\n    }\n    SimpleScopedLock lock(m);\n","V"),
("C02","level-grow",LL,"	instance->debug_levels.resize(ret+1);\n","	if (ret + 1 == instance->debug_levels.capacity()) {\n	    instance->debug_levels.reserve(2 * (ret + 1));\n	}\n	instance->debug_levels.resize(ret+1);\n","V"),
("C02","level-assign",LL,"	instance->debug_levels.resize(ret+1);\n","	vector<uint8_t> bigger(instance->debug_levels);\n	bigger.resize(ret + 1);\n	instance->debug_levels.swap(bigger);\n","V"),
("C02","level-noinv",LL,"	INVARIANT(ret < instance->debug_levels.capacity(),\n		  format(\"thread safety would be sacrificed by letting the vector resize; you need to call LintelLog::reserveCategories(%d) or greater\")\n		  % (ret * 1.5));\n","	DEBUG_SINVARIANT(ret < instance->debug_levels.capacity());\n","V"),
("C02","level-off",LL,"	INVARIANT(ret < instance->debug_levels.capacity(),","	INVARIANT(ret <= instance->debug_levels.capacity(),","V"),
("C02","other-mutex",LL,"void LintelLog::addAppender(appender_fn fn) {\n    maybeInitInstance();\n    SimpleScopedLock lock(instance->mutex);","void LintelLog::addAppender(appender_fn fn) {\n    static SimpleMutex appender_mutex;\n    maybeInitInstance();\n    SimpleScopedLock lock(appender_mutex);","V"),
("C02","local-mutex",PC,"    static SimpleMutex m;\n    static unsigned cache_ncpus;","    SimpleMutex m;\n    static unsigned cache_ncpus;","V"),
("C02","static-buffer",SU,"string hexstring(const void *_data, unsigned datasize) {\n    const unsigned char *data = reinterpret_cast<const unsigned char *>(_data);\n    string ret;\n","string hexstring(const void *_data, unsigned datasize) {\n    const unsigned char *data = reinterpret_cast<const unsigned char *>(_data);\n    static string ret;\n    ret.clear();\n","V"),
("C02","static-count",SU,"bool stringIsBlank(const string &str)\n{","bool stringIsBlank(const string &str)\n{\n    static size_t last_n;\n    last_n = str.size();\n","V"),
("C02","lazy-table",SU,"bool stringIsBlank(const string &str)\n{\n    size_t n = str.size();","static bool blanks_ready; static bool blanks[256];\nbool stringIsBlank(const string &str)\n{\n    if (!blanks_ready) {\n	for (int c = 0; c < 256; ++c) { blanks[c] = isblank(c); }\n	blanks_ready = true;\n    }\n    size_t n = str.size();","V"),
("C02","warn-plain",LL,["	static lintel::Atomic<uint32_t> generated_warnings;\n	if (generated_warnings++ == 0) {"],["	static bool generated_warning = false;\n	if (!generated_warning) {\n	    generated_warning = true;"],"V"),
("C02","debug-msg-nolock",LL,"	{\n	    SimpleScopedLock lock(instance->mutex);\n	    for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); \n		i != instance->category2id.end(); ++i) {\n		debug_names","	{\n	    for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); \n		i != instance->category2id.end(); ++i) {\n		debug_names","V"),
("C02","ncpus-static-q",PC,["int PThreadMisc::getNCpus(bool unknown_ok) {\n    static SimpleMutex m;\n    static unsigned cache_ncpus;\n\n    SimpleScopedLock lock(m);"],["static SimpleMutex ncpus_mutex;\nstatic unsigned cache_ncpus;\nint PThreadMisc::getNCpus(bool unknown_ok) {\n    SimpleScopedLock lock(ncpus_mutex);"],"Q"),
("C02","level-guard-q",LL,"	INVARIANT(ret < instance->debug_levels.capacity(),\n		  format(\"thread safety would be sacrificed by letting the vector resize; you need to call LintelLog::reserveCategories(%d) or greater\")\n		  % (ret * 1.5));\n","	if (!(instance->debug_levels.capacity() > ret)) {\n	    FATAL_ERROR(format(\"thread safety would be sacrificed by letting the vector resize; you need to call LintelLog::reserveCategories(%d) or greater\")\n		  % (ret * 1.5));\n	}\n","Q"),
("C02","level-pushback-q",LL,"	instance->debug_levels.resize(ret+1);\n","	instance->debug_levels.push_back(0);\n","Q"),
("C02","log-copy-q",LL,"    SimpleScopedLock lock(instance->mutex);\n    if (instance->appenders.empty()) {\n	consoleAppender(msg, log_type);\n    } else {\n	for(vector<appender_fn>::iterator i = instance->appenders.begin();\n	    i != instance->appenders.end(); ++i) {\n	    (*i)(msg, log_type);\n	}\n    }","    vector<appender_fn> fns;\n    {\n	SimpleScopedLock lock(instance->mutex);\n	fns = instance->appenders;\n    }\n    if (fns.empty()) {\n	consoleAppender(msg, log_type);\n    }\n    for (size_t i = 0; i < fns.size(); ++i) {\n	fns[i](msg, log_type);\n    }","Q"),
("C02","static-table-q",SU,"bool stringIsBlank(const string &str)\n{\n    size_t n = str.size();","static vector<bool> makeBlanks() {\n    vector<bool> ret(256);\n    for (int c = 0; c < 256; ++c) { ret[c] = isblank(c) != 0; }\n    return ret;\n}\nbool stringIsBlank(const string &str)\n{\n    static const vector<bool> blanks(makeBlanks());\n    if (!str.empty() && !blanks[static_cast<unsigned char>(str[0])]) { return false; }\n    size_t n = str.size();","Q"),
("C02","category-helper-q",LL,["uint32_t LintelLog::categoryToId(const string &category) {","	SimpleScopedLock lock(instance->mutex);\n	ret = lockedCategoryToId(category);\n    }\n    maybeCategoryLimitWarning(ret);\n    return ret;"],["uint32_t LintelLog::categoryToId(const string &category) {","	SimpleMutex &mutex = instance->mutex;\n	SimpleScopedLock lock(mutex);\n	ret = lockedCategoryToId(category);\n    }\n    maybeCategoryLimitWarning(ret);\n    return ret;"],"Q"),
]
