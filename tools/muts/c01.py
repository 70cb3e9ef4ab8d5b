LL="src/LintelLog.cpp"; PT="include/Lintel/PThread.hpp.in"; SM="include/Lintel/SimpleMutex.hpp"; CK="src/Clock.cpp"; PC="src/PThread.cpp"
MUTS=[
("C01","relog-in-lock",LL,"                instance->debug_levels[i->second] = level;\n            }\n	}\n","                instance->debug_levels[i->second] = level;\n            }\n	}\n	maybeCategoryLimitWarning(instance->debug_levels.size());\n","V"),
("C01","warn-in-lock",LL,"	    instance->debug_levels[id] = level;\n	}\n	maybeCategoryLimitWarning(id);","	    instance->debug_levels[id] = level;\n	    maybeCategoryLimitWarning(id);\n	}","V"),
("C01","help-in-lock",LL,["		debug_names.push_back(i->first);\n	    }\n	}\n	sort(debug_names.begin(), debug_names.end());\n\n	LintelLogDebugLevelVariable(help, 1, format(\"known debugging options: %s\")\n                                    % join(\", \", debug_names));"],["		debug_names.push_back(i->first);\n	    }\n	sort(debug_names.begin(), debug_names.end());\n\n	LintelLogDebugLevelVariable(help, 1, format(\"known debugging options: %s\")\n                                    % join(\", \", debug_names));\n	}"],"V"),
("C01","log-unlock-call",LL,"	    (*i)(msg, log_type);\n","	    instance->mutex.unlock(); // let appenders log\n	    (*i)(msg, log_type);\n	    instance->mutex.lock();\n","V"),
("C01","rate-manual",CK,["    SimpleScopedLock lock(clockRateMutex());\n","	      % max_recalibrate_measure_time % (100 * clock_rate));\n}"],["    clockRateMutex().lock();\n","	      % max_recalibrate_measure_time % (100 * clock_rate));\n    clockRateMutex().unlock();\n}"],"V"),
("C01","rate-early",CK,["    SimpleScopedLock lock(clockRateMutex());\n    INVARIANT(clock_rate == -Double::Inf,\n	      format(\"whoa, two threads calibrating at the same time?! %g != %g\")\n	      % clock_rate % (-Double::Inf));\n    clock_rate = estimated_mhz;\n"],["    clockRateMutex().lock();\n    if (clock_rate != -Double::Inf) {\n	return;\n    }\n    clock_rate = estimated_mhz;\n    clockRateMutex().unlock();\n"],"V"),
("C01","ordered-lock-first",PT,"	old_level = group.scopeDown(mutex_level);\n	mutex.lock();\n","	mutex.lock();\n	old_level = group.scopeDown(mutex_level);\n","V"),
("C01","unlock-order",PT,"	parent.mutex.unlock();\n    }\n\n    ~PThreadScopedUnlock() {\n","	if (parent.ordering_group == NULL) { parent.mutex.unlock(); }\n    }\n\n    ~PThreadScopedUnlock() {\n","V"),
("C01","relock-cond",PT,"	    SINVARIANT(tmp_old_level == parent.old_level);\n	}\n	parent.mutex.lock();","	    SINVARIANT(tmp_old_level == parent.old_level);\n	    parent.mutex.lock();\n	}","V"),
("C01","guard-try",SM,"        m.unlock();\n    }\n\n    SimpleMutex &m;","        if (!std::uncaught_exceptions()) { m.unlock(); }\n    }\n\n    SimpleMutex &m;","V"),
("C01","cond-unlock",PT,"        int ret = pthread_cond_timedwait(&c, &m.m, &abstime);\n","        m.unlock();\n        int ret = pthread_cond_timedwait(&c, &m.m, &abstime);\n","V"),
("C01","lock-twice",PT,"	int ret = pthread_mutex_lock(&m);\n	INVARIANT(ret==0, boost::format(\"pthread_mutex_lock failed: %s\") % strerror(ret));\n	++ncontention;","	int ret = pthread_mutex_lock(&m);\n	INVARIANT(ret==0, boost::format(\"pthread_mutex_lock failed: %s\") % strerror(ret));\n	if (ncontention++ > 1000 && !trylock()) { ncontention = 0; }","V"),
("C01","guard-heap",LL,"    SimpleScopedLock lock(instance->mutex);\n    instance->appenders.push_back(fn);","    SimpleScopedLock *lock = new SimpleScopedLock(instance->mutex);\n    instance->appenders.push_back(fn);\n    delete lock;","V"),
("C01","init-in-lock",LL,"    SimpleScopedLock lock(instance->mutex);\n    instance->appenders.push_back(fn);","    SimpleScopedLock lock(instance->mutex);\n    wouldDebug(\"appenders\", 1);\n    instance->appenders.push_back(fn);","V"),
("C01","temp-guard",LL,"    SimpleScopedLock lock(instance->mutex);\n    instance->appenders.push_back(fn);","    instance->mutex.lock();\n    instance->appenders.push_back(fn);\n    instance->mutex.unlock();","V"),
# behaviour kept
("C01","rate-try-q",CK,["    SimpleScopedLock lock(clockRateMutex());\n    INVARIANT(clock_rate == -Double::Inf,","	      % max_recalibrate_measure_time % (100 * clock_rate));\n}"],["    clockRateMutex().lock();\n    try {\n    INVARIANT(clock_rate == -Double::Inf,","	      % max_recalibrate_measure_time % (100 * clock_rate));\n    } catch (...) {\n	clockRateMutex().unlock();\n	throw;\n    }\n    clockRateMutex().unlock();\n}"],"Q"),
("C01","log-helper-q",LL,["void LintelLog::log(const string &msg, const LogType log_type) {\n    maybeInitInstance();","    SimpleScopedLock lock(instance->mutex);\n    if (instance->appenders.empty()) {\n	consoleAppender(msg, log_type);\n    } else {\n	for(vector<appender_fn>::iterator i = instance->appenders.begin();\n	    i != instance->appenders.end(); ++i) {\n	    (*i)(msg, log_type);\n	}\n    }\n"],["typedef boost::function<void (const string &, LintelLog::LogType)> LogFnT;\nstatic void callAll(const vector<LintelLog::appender_fn> &fns, const string &msg, LintelLog::LogType log_type) {\n    for (size_t i = 0; i < fns.size(); ++i) {\n	fns[i](msg, log_type);\n    }\n}\nvoid LintelLog::log(const string &msg, const LogType log_type) {\n    maybeInitInstance();","    {\n	SimpleScopedLock lock(instance->mutex);\n	if (!instance->appenders.empty()) {\n	    callAll(instance->appenders, msg, log_type);\n	} else {\n	    consoleAppender(msg, log_type);\n	}\n    }\n"],"Q"),
("C01","category-flat-q",LL,"    uint32_t ret;\n    {\n	SimpleScopedLock lock(instance->mutex);\n	ret = lockedCategoryToId(category);\n    }\n    maybeCategoryLimitWarning(ret);\n    return ret;","    instance->mutex.lock();\n    uint32_t ret = 0;\n    try {\n	ret = lockedCategoryToId(category);\n    } catch (...) {\n	instance->mutex.unlock();\n	throw;\n    }\n    instance->mutex.unlock();\n    maybeCategoryLimitWarning(ret);\n    return ret;","Q"),
("C01","ncpus-own-guard-q",PC,["int PThreadMisc::getNCpus(bool unknown_ok) {\n","    SimpleScopedLock lock(m);\n"],["namespace {\n    struct HeldMutex {\n	explicit HeldMutex(SimpleMutex &a) : held(&a) { held->lock(); }\n	~HeldMutex() { if (held != NULL) { held->unlock(); } }\n	SimpleMutex *held;\n    };\n}\nint PThreadMisc::getNCpus(bool unknown_ok) {\n","    HeldMutex lock(m);\n"],"Q"),
("C01","init-swap-q",LL,"    if (instance == NULL) {\n	SimpleScopedLock lock(init_mutex);\n	if (instance == NULL) {\n	    instance_data *tmp = new instance_data();\n	    tmp->mutex.lock(); // try to force the above to be \n	    tmp->mutex.unlock();\n	    instance = tmp;\n	}\n    }","    if (instance != NULL) {\n	return;\n    }\n    SimpleScopedLock lock(init_mutex);\n    if (instance != NULL) {\n	return;\n    }\n    instance_data *tmp = new instance_data();\n    { SimpleScopedLock barrier(tmp->mutex); }\n    instance = tmp;","Q"),
("C01","lock-direct-q",PT,"	if (trylock()) {\n	    return;\n	}\n	int ret = pthread_mutex_lock(&m);","	const bool got = trylock();\n	if (got) {\n	    return;\n	}\n	int ret = pthread_mutex_lock(&m);","Q"),
("C01","unlock-level-q",PT,"	if (parent.ordering_group != NULL) {\n	    parent.ordering_group\n		->scopeUp(parent.mutex_level, parent.old_level);\n	}\n	parent.mutex.unlock();","	LockOrderingGroup *group = parent.ordering_group;\n	if (group) {\n	    group->scopeUp(parent.mutex_level, parent.old_level);\n	}\n	parent.mutex.unlock();","Q"),
]
