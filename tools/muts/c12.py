F="src/AssertBoost.cpp"; H="include/Lintel/AssertBoost.hpp"; X="include/Lintel/AssertException.hpp"
MUTS=[
 ("C12","catch-order",H,"        } catch (AssertBoostException &e) {                                       \\\n            throw e;                                                              \\\n        } catch (std::exception &e) {					          \\\n","        } catch (std::exception &e) {					          \\\n","V"),
 ("C12","inv-no-guard",H,"            } catch (AssertBoostException &e) {                                       \\\n                throw e;                                                              \\\n","            } catch (AssertBoostException &e) {                                       \\\n","V"),
 ("C12","inv-double-eval",H,"        if (LIKELY(ExpressioN)) {                                                     \\\n        } else {","        if (LIKELY(ExpressioN) && (ExpressioN)) {                                                     \\\n        } else {","V"),
 ("C12","inv-rethrow-q",H,"            } catch (AssertBoostException &e) {                                       \\\n                throw e;","            } catch (AssertBoostException &) {                                       \\\n                throw;","Q"),
 ("C12","inv-not-q",H,"        if (LIKELY(ExpressioN)) {                                                     \\\n        } else {","        if (!LIKELY(ExpressioN)) {","Q"),
 ("C12","rethrow-swallow",H,"                throw e;","                (void)e;","V"),
 ("C12","debug-off-evals",H,"#    define DEBUG_SINVARIANT(ExpressioN) do { } while(0)","#    define DEBUG_SINVARIANT(ExpressioN) do { (void)(ExpressioN); } while(0)","V"),
 ("C12","debug-off-sizeof-q",H,"#    define DEBUG_SINVARIANT(ExpressioN) do { } while(0)","#    define DEBUG_SINVARIANT(ExpressioN) do { (void)sizeof(ExpressioN); } while(0)","Q"),
 ("C12","file-line",H,"                AssertBoostFail(#ExpressioN, __FILE__, __LINE__,                      \\\n","                AssertBoostFail(\"error\", __FILE__, __LINE__,                      \\\n","V"),
 ("C12","hooks-first-only",F,"	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n    }	\n","	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	    if (!msg.empty()) break;\n	}\n    }	\n","V"),
 ("C12","hooks-start1",F,"i = pre_msg_fns.begin();\n","i = pre_msg_fns.begin() + (pre_msg_fns.size() > 8);\n","V"),
 ("C12","no-cleanup",F,"	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n    }	\n","	    assert_boost_fail_recurse = true;\n	    (*i)(expression, file, line, msg);\n	    assert_boost_fail_recurse = false;\n	}\n    }	\n","V"),
 ("C12","no-flag",F,"	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n    }\n\n","	    (*i)(expression, file, line, msg);\n	}\n    }\n\n","V"),
 ("C12","dtor-noclear",F,"	assert_boost_fail_recurse = false;\n    }\n};","	assert_boost_fail_recurse = std::uncaught_exception();\n    }\n};","V"),
 ("C12","msg-lost",F,"    if (msg.size() > 0) {","    if (msg.size() > 1) {","Q"),
 ("C12","msg-lost2",F,"	cerr << \"**** Details: \" << msg << \"\\n\";","	cerr << \"**** Details: \" << \"\\n\";","V"),
 ("C12","arg-swap",F,"	    (*i)(expression, file, line, msg);\n	}\n    }\n\n","	    (*i)(file, expression, line, msg);\n	}\n    }\n\n","V"),
 ("C12","post-before",F,"    AssertBoostFailOutput(expression, file, line, msg);\n    if (!assert_boost_fail_recurse) {\n	for(vector<assert_hook_fn>::iterator i = post_msg_fns.begin();\n	    i != post_msg_fns.end(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n    }\n","    if (!assert_boost_fail_recurse) {\n	for(vector<assert_hook_fn>::iterator i = post_msg_fns.begin();\n	    i != post_msg_fns.end(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n    }\n    AssertBoostFailOutput(expression, file, line, msg);\n","V"),
 ("C12","die-exit0",F,"    abort();	 // try to die\n","    if (getenv(\"LINTEL_ASSERT_SOFT\") == NULL) abort();	 exit(0);\n","V"),
 ("C12","format-catch",F,"    } catch(...) {\n	msg = \"**** Unknown","    } catch(std::exception &) {\n	msg = \"**** Unknown","V"),
 ("C12","format-few-only",F,"    } catch (boost::io::too_few_args &) {\n	msg = \"**** Programmer error, format given too few arguments\";\n","","Q"),
 ("C12","helper-q",F,["static void AssertBoostFailDie() FUNC_ATTR_NORETURN;\n","void AssertBoostFail(const char *expression, const char *file, int line,\n		     const string &msg) {\n","	for(vector<assert_hook_fn>::iterator i = pre_msg_fns.begin();\n	    i != pre_msg_fns.end(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n	}\n"],["static void AssertBoostFailDie() FUNC_ATTR_NORETURN;\n","static void runHooks(vector<assert_hook_fn> &fns, const char *expression, const char *file, int line, const string &msg) {\n	for (size_t i = 0; i < fns.size(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    fns[i](expression, file, line, msg);\n	}\n}\nvoid AssertBoostFail(const char *expression, const char *file, int line,\n		     const string &msg) {\n","	runHooks(pre_msg_fns, expression, file, line, msg);\n"],"Q"),
 ("C12","range-for-q",F,"	for(vector<assert_hook_fn>::iterator i = pre_msg_fns.begin();\n	    i != pre_msg_fns.end(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n","	for (assert_hook_fn fn : pre_msg_fns) {\n	    AssertBoostCleanupRecurse cleanup;\n	    fn(expression, file, line, msg);\n","Q"),
 ("C12","range-for-ref-q",F,"	for(vector<assert_hook_fn>::iterator i = post_msg_fns.begin();\n	    i != post_msg_fns.end(); ++i) {\n	    AssertBoostCleanupRecurse cleanup;\n	    (*i)(expression, file, line, msg);\n","	const size_t n = post_msg_fns.size();\n	for (size_t k = 0; k != n; k++) {\n	    const assert_hook_fn &fn(post_msg_fns[k]);\n	    AssertBoostCleanupRecurse cleanup;\n	    fn(expression, file, line, msg);\n","Q"),
 ("C12","fprintf-q",F,"    cerr << format(\"\\n**** Assertion failure in file %s, line %d\\n\"\n			  \"**** Failed expression: %s\\n\")\n	% file % line % expression;\n","    fprintf(stderr, \"\\n**** Assertion failure in file %s, line %d\\n**** Failed expression: %s\\n\", file, line, expression);\n","Q"),
 ("C12","clear-one",F,"    post_msg_fns.clear();\n","    if (pre_msg_fns.empty()) { post_msg_fns.clear(); }\n","V"),
 ("C12","clear-swap-q",F,"    pre_msg_fns.clear();\n    post_msg_fns.clear();\n","    vector<assert_hook_fn>().swap(post_msg_fns);\n    pre_msg_fns.erase(pre_msg_fns.begin(), pre_msg_fns.end());\n","Q"),
 ("C12","after-to-pre",F,"    post_msg_fns.push_back(fn);\n","    pre_msg_fns.push_back(fn);\n","V"),
 ("C12","before-replace",F,"    pre_msg_fns.push_back(fn);\n","    if (!pre_msg_fns.empty()) { pre_msg_fns.back() = fn; } else { pre_msg_fns.push_back(fn); }\n","V"),
 ("C12","ctor-swap",H,"	: expression(a), filename(b), line(c), msg(d), save_what() { }","	: expression(b), filename(a), line(c), msg(d), save_what() { }","V"),
 ("C12","summary-msg",F,"% expression % filename % line % msg).str();","% expression % filename % line % expression).str();","V"),
 ("C12","what-local",F,"	if (save_what.empty()) {\n	    save_what = summary();\n	}\n	ret = save_what.c_str();","	string tmp(summary());\n	ret = tmp.c_str();","V"),
 ("C12","throwfn-cond",F,"    throw AssertBoostException(a,b,c,d);","    if (d.empty()) return;\n    throw AssertBoostException(a,b,c,d);","V"),
 ("C12","debug-effect","include/Lintel/PriorityQueue.hpp","	DEBUG_SINVARIANT(cur_pos < pq_size);","	DEBUG_SINVARIANT(cur_pos++ < pq_size);","V"),
 ("C12","debug-effect2","include/Lintel/RotatingHashMap.hpp","	    DEBUG_SINVARIANT(table_old->lookup(k) == NULL);","	    DEBUG_SINVARIANT(table_old->remove(k, false) == false);","V"),
 ("C12","exc-twice",X,"( (condition) ? (void)0 : throw subtype (#condition, \"\", __FILE__, __LINE__) )","( (condition) || !(condition) ? (void)0 : throw subtype (#condition, \"\", __FILE__, __LINE__) )","V"),
 ("C12","tu-noclear","include/Lintel/TestUtil.hpp","        AssertBoostClearFns(); \\\n        bool found","        bool found","V"),
 ("C12","tu-nofatal","include/Lintel/TestUtil.hpp","        FATAL_ERROR(\"no invariant happened\"); \\\n","","V"),
 ("C12","printf-trunc","src/AssertException.cpp","    va_start(ap, format);\n    actual_size = vsnprintf(&ret[0], ret.size(), format, ap);\n    va_end(ap);\n","    actual_size = static_cast<int>(ret.size()) - 1;\n","V"),
]
