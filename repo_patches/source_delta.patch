From e4fc3a01fc700fed629340c3f1ece52a0aed6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 01/44] fix: LintelLog releases its mutexes when an appender,
 an invariant or an allocation throws

log(), categoryToId(), setDebugLevel(), reserveCategories(), addAppender(),
debugMessagesInitial() and maybeInitInstance() locked and unlocked by hand, so an
exception in between (for example from a user supplied appender) left the mutex
locked and the next logging call deadlocked.
---
 src/LintelLog.cpp | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 0d2b061..8e7c891 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -35,10 +35,9 @@ bool LintelLog::wouldDebug(const string &category, unsigned level) {
 
 void LintelLog::reserveCategories(unsigned max_categories) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     SINVARIANT(max_categories >= instance->debug_levels.size());
     instance->debug_levels.reserve(max_categories);
-    instance->mutex.unlock();
 }
 
 void LintelLog::parseEnv() {
@@ -82,11 +81,11 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
     // Assuming that readers will either see the old or the new value, and
     // hence we won't have to lock the read path.  This is why the strings are
     // stored in a pointer.
-    instance->mutex.lock();
 
     // TODO: add support for starting with ( and ending with ) to be a regex match if we 
     // have the pcre library.
     if (!category.empty() && category[category.size() - 1] == '*') {
+	SimpleScopedLock lock(instance->mutex);
 	SINVARIANT(instance->complex_matches.size() < instance->complex_matches.capacity());
 
 	instance_data::complex_match *tmp 
@@ -103,12 +102,14 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
                 instance->debug_levels[i->second] = level;
             }
 	}
-	instance->mutex.unlock();
     } else {
-	uint32_t id = lockedCategoryToId(category);
-	SINVARIANT(id < instance->debug_levels.size());
-	instance->debug_levels[id] = level;
-	instance->mutex.unlock();
+	uint32_t id;
+	{
+	    SimpleScopedLock lock(instance->mutex);
+	    id = lockedCategoryToId(category);
+	    SINVARIANT(id < instance->debug_levels.size());
+	    instance->debug_levels[id] = level;
+	}
 	maybeCategoryLimitWarning(id);
     }
 }
@@ -118,12 +119,13 @@ void LintelLog::debugMessagesInitial() {
     if (wouldDebug(help)) {
 	vector<string> debug_names;
 
-	instance->mutex.lock();
-	for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); 
-	    i != instance->category2id.end(); ++i) {
-	    debug_names.push_back(i->first);
+	{
+	    SimpleScopedLock lock(instance->mutex);
+	    for(HashMap<string, uint32_t>::iterator i = instance->category2id.begin(); 
+		i != instance->category2id.end(); ++i) {
+		debug_names.push_back(i->first);
+	    }
 	}
-	instance->mutex.unlock();
 	sort(debug_names.begin(), debug_names.end());
 
 	LintelLogDebugLevelVariable(help, 1, format("known debugging options: %s")
@@ -138,9 +140,8 @@ void LintelLog::debugMessagesFinal() {
 
 void LintelLog::addAppender(appender_fn fn) {
     maybeInitInstance();
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     instance->appenders.push_back(fn);
-    instance->mutex.unlock();
 }
 
 static string str_empty("");
@@ -207,7 +208,7 @@ void LintelLog::log(const string &msg, const LogType log_type) {
     // timedLock, but that doesn't work becuase the instance mutex is a 
     // simple mutex so that it works without being linked with libpthread.
     // Not clear what the right solution is.
-    instance->mutex.lock();
+    SimpleScopedLock lock(instance->mutex);
     if (instance->appenders.empty()) {
 	consoleAppender(msg, log_type);
     } else {
@@ -216,15 +217,15 @@ void LintelLog::log(const string &msg, const LogType log_type) {
 	    (*i)(msg, log_type);
 	}
     }
-    instance->mutex.unlock();
 }
 
 uint32_t LintelLog::categoryToId(const string &category) {
     maybeInitInstance();
-    instance->mutex.lock();
-    uint32_t ret = lockedCategoryToId(category);
-    instance->mutex.unlock();
-
+    uint32_t ret;
+    {
+	SimpleScopedLock lock(instance->mutex);
+	ret = lockedCategoryToId(category);
+    }
     maybeCategoryLimitWarning(ret);
     return ret;
 }
@@ -271,14 +272,13 @@ void LintelLog::maybeInitInstance() {
     // is this actually safe?  Really don't want to have to take the
     // lock when we almost never need to.
     if (instance == NULL) {
-	init_mutex.lock();
+	SimpleScopedLock lock(init_mutex);
 	if (instance == NULL) {
 	    instance_data *tmp = new instance_data();
 	    tmp->mutex.lock(); // try to force the above to be 
 	    tmp->mutex.unlock();
 	    instance = tmp;
 	}
-	init_mutex.unlock();
     }
 }
 
-- 
2.43.0


From b0094b7cdc5eaa227681dee2a14fb9e68e4edb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 02/44] fix: Clock::setClockRate releases the clock rate mutex
 when its invariants throw

---
 src/Clock.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index 01577f4..45728ab 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -248,7 +248,7 @@ namespace {
 }
 
 void Clock::setClockRate(double estimated_mhz) {
-    clockRateMutex().lock();
+    SimpleScopedLock lock(clockRateMutex());
     INVARIANT(clock_rate == -Double::Inf,
 	      format("whoa, two threads calibrating at the same time?! %g != %g")
 	      % clock_rate % (-Double::Inf));
@@ -268,7 +268,6 @@ void Clock::setClockRate(double estimated_mhz) {
     INVARIANT(max_recalibrate_measure_time < 100 * clock_rate,
 	      format("Internal sanity check failed, tod() takes too long, %d > %.2f\n")
 	      % max_recalibrate_measure_time % (100 * clock_rate));
-    clockRateMutex().unlock();
 }
 
 void Clock::calibrateClock(bool print_calibration_information, 
-- 
2.43.0


From 24c74d9499f5172001133a58e158e2a14ae8d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 03/44] fix: Base64 fills its decoding table once,
 thread-safely, and zeroes the unused entries

---
 include/Lintel/Base64.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index b3a178d..2f21996 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -28,15 +28,8 @@ namespace lintel {
 	}
 
 	static const char * detranslate() {
-	    static char * inverse = 0;
-	    if (inverse) {
-		return inverse;
-	    }
-	    inverse = new char[256];
-	    for (int8_t i=0; i<64; ++i) {
-		inverse[static_cast<int32_t>(translate()[i])] = 
-		    static_cast<char>(i);
-	    }
+	    // initialized exactly once, even if multiple threads get here together
+	    static const char * const inverse = makeDetranslate();
 	    return inverse;
 	}
 	
@@ -197,6 +190,15 @@ namespace lintel {
 			   char * ret) {
 	    encode(data.data(), data.size(), digits, ret);
 	}
+    private:
+	static const char * makeDetranslate() {
+	    char * inverse = new char[256]();
+	    for (int8_t i=0; i<64; ++i) {
+		inverse[static_cast<uint8_t>(translate()[i])] = 
+		    static_cast<char>(i);
+	    }
+	    return inverse;
+	}
     };
 }
 
-- 
2.43.0


From 981d7b44fb80efc4bffd16abb653322eea901bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 04/44] fix: StatsQuantile protects the cache shared by all
 instances with a mutex

---
 src/StatsQuantile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 6d155a4..9940578 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -18,6 +18,7 @@
 #include <Lintel/Double.hpp>
 #include <Lintel/HashMap.hpp>
 #include <Lintel/LintelLog.hpp>
+#include <Lintel/SimpleMutex.hpp>
 #include <Lintel/StatsQuantile.hpp>
 
 using namespace std;
@@ -49,6 +50,7 @@ namespace {
     };
 
     HashMap<ErrorNbound, BK> bk_cache;
+    SimpleMutex bk_cache_mutex; // protects bk_cache, which is shared by all StatsQuantiles
 
     double fact(double a) {
 	double ret = 1.0;
@@ -85,6 +87,7 @@ StatsQuantile::StatsQuantile(double _quantile_error, int64_t in_nbound, int _pri
 
     // If we are making lots of smallish StatsQuantiles, we can spend
     // too much of our time doing this, so cache the sizes.
+    SimpleScopedLock lock(bk_cache_mutex);
     BK *cache = bk_cache.lookup(ErrorNbound(quantile_error, Nbound));
 
     if (cache != NULL) {
-- 
2.43.0


From 668b3408f9dcfb0e50968cd676933fb8de3f4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 05/44] fix: LintelLog counts slow wouldDebug calls and its
 one-time warning atomically

---
 src/LintelLog.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 8e7c891..95c5fc1 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -15,6 +15,7 @@
 #include <boost/smart_ptr.hpp>
 #include <boost/utility.hpp>
 
+#include <Lintel/AtomicCounter.hpp>
 #include <Lintel/LintelLog.hpp>
 #include <Lintel/SimpleMutex.hpp>
 #include <Lintel/StringUtil.hpp>
@@ -24,7 +25,7 @@ using boost::format;
 
 LintelLog::instance_data *LintelLog::instance;
 
-static unsigned slow_woulddebug_calls;
+static lintel::Atomic<uint32_t> slow_woulddebug_calls;
 
 bool LintelLog::wouldDebug(const string &category, unsigned level) {
     ++slow_woulddebug_calls;
@@ -135,7 +136,7 @@ void LintelLog::debugMessagesInitial() {
 
 void LintelLog::debugMessagesFinal() {
     LintelLogDebug("LintelLog::stats", format("%d calls to slow wouldDebug path")
-		   % slow_woulddebug_calls);
+		   % slow_woulddebug_calls.load());
 }
 
 void LintelLog::addAppender(appender_fn fn) {
@@ -232,9 +233,8 @@ uint32_t LintelLog::categoryToId(const string &category) {
 
 void LintelLog::maybeCategoryLimitWarning(uint32_t id) {
     if (((id * 5) / 4) >= instance->debug_levels.capacity()) {
-	static bool generated_warning = false;
-	if (!generated_warning) {
-	    generated_warning = true;
+	static lintel::Atomic<uint32_t> generated_warnings;
+	if (generated_warnings++ == 0) {
 	    warn(format("close to running out of reserved categories %d/%d used; recommend calling LintelLog::reserveCategories(%d) or greater") 
 		 % id % instance->debug_levels.capacity()
 		 % (1.5 * instance->debug_levels.capacity()));
-- 
2.43.0


From 7e672e40ab755487362b531a649c0c3b57ad8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 06/44] fix: SimpleMutex checks that its mutex could be
 initialised

---
 src/SimpleMutex.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMutex.cpp b/src/SimpleMutex.cpp
index 004c812..0c2546e 100644
--- a/src/SimpleMutex.cpp
+++ b/src/SimpleMutex.cpp
@@ -14,7 +14,9 @@
 
 SimpleMutex::SimpleMutex()
 { 
-    pthread_mutex_init(&m, NULL);
+    int ret = pthread_mutex_init(&m, NULL);
+    INVARIANT(ret == 0, boost::format("pthread_mutex_init failed: %s")
+	      % strerror(ret));
 }
 
 SimpleMutex::~SimpleMutex() { 
-- 
2.43.0


From 3cdb7553aa04a09590f4b21184945f119b16b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 07/44] fix: Clock::perThread checks that the thread's clock
 could be recorded

---
 src/ClockPThread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ClockPThread.cpp b/src/ClockPThread.cpp
index 167aa11..9f7dbae 100644
--- a/src/ClockPThread.cpp
+++ b/src/ClockPThread.cpp
@@ -32,7 +32,8 @@ Clock &Clock::perThread() {
 	INVARIANT(did_per_thread_init && isCalibrated(),
 		  "you need to call Clock::perThreadInit before calling Clock::perThread()");
 	c = new Clock;
-	pthread_setspecific(per_thread_clock, c);
+	int ret = pthread_setspecific(per_thread_clock, c);
+	INVARIANT(ret == 0, boost::format("pthread_setspecific failed: %s") % strerror(ret));
     }
     return *c;
 }
-- 
2.43.0


From 1a543ce9c1f25e1b93c6f07edf346e17fcf71363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 08/44] fix: PThreadNoSignals::start checks the signal mask
 calls and restores the mask when the thread cannot be started

---
 src/PThread.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/PThread.cpp b/src/PThread.cpp
index bd0e094..9da4a21 100644
--- a/src/PThread.cpp
+++ b/src/PThread.cpp
@@ -289,9 +289,17 @@ pthread_t PThreadNoSignals::start() {
     // don't catch any signals in this thread
     // n.b. we're expecting this to be called from a master thread,
     // so no contention for the sigmask should occur
-    pthread_sigmask(SIG_BLOCK, &newset, &oldset);
-    pthread_t tid = PThread::start();
-    pthread_sigmask(SIG_SETMASK, &oldset, 0);
+    int ret = pthread_sigmask(SIG_BLOCK, &newset, &oldset);
+    INVARIANT(ret == 0, format("pthread_sigmask failed: %s") % strerror(ret));
+    pthread_t tid;
+    try {
+	tid = PThread::start();
+    } catch (...) {
+	pthread_sigmask(SIG_SETMASK, &oldset, 0);
+	throw;
+    }
+    ret = pthread_sigmask(SIG_SETMASK, &oldset, 0);
+    INVARIANT(ret == 0, format("pthread_sigmask failed: %s") % strerror(ret));
     return tid;
 }
 
-- 
2.43.0


From fa5fb47aa4b8f27d6f6ff57603abd15cbeec007a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 09/44] fix: StatsQuantile::printFile and printTail notice
 failed writes

---
 src/StatsQuantile.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 9940578..af6c5c6 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -714,7 +714,9 @@ void StatsQuantile::printRome(int depth, ostream &out) const {
 void StatsQuantile::printFile(FILE *out, int nranges) {
     ostringstream tmp;
     printTextRanges(tmp, nranges);
-    fwrite(tmp.str().data(), tmp.str().size(), 1, out);
+    string text(tmp.str());
+    INVARIANT(fwrite(text.data(), 1, text.size(), out) == text.size(),
+	      "error writing quantile output");
 }
 
 void StatsQuantile::printTextRanges(ostream &out, int nranges, double multiplier) const {
@@ -743,7 +745,9 @@ void StatsQuantile::printTextRanges(ostream &out, int nranges, double multiplier
 void StatsQuantile::printTail(FILE *out) {
     ostringstream tmp;
     printTextTail(tmp);
-    fwrite(tmp.str().data(), tmp.str().size(), 1, out);
+    string text(tmp.str());
+    INVARIANT(fwrite(text.data(), 1, text.size(), out) == text.size(),
+	      "error writing quantile output");
 }
 
 // TODO: should this print tails if we have very few data points,
-- 
2.43.0


From fa0ea1ddad2ef6c8e84f6a446d8baf8a17f0d56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:20 +0000
Subject: [PATCH 10/44] fix: posix::readN never reads beyond the caller's
 buffer after a short read

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index e198beb..6d43e59 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -71,7 +71,7 @@ namespace posix {
 	uint8_t *buf2 = (uint8_t *)buf;
 	ssize_t left = nbyte;
 	do {
-	    ssize_t nb = ::read(fd, buf2, nbyte);
+	    ssize_t nb = ::read(fd, buf2, left);
 	    INVARIANT(nb != -1, boost::format("readN(%d): %s") 
 		      % fd % strerror(errno));
 	    if (nb == 0) {
-- 
2.43.0


From 41d270cb6292522245985d4fe3713f2622b2c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 11/44] fix: Clock's frequency scaling check closes the cpu
 directory and its files on every path

---
 src/Clock.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index 45728ab..7f48c83 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -64,11 +64,11 @@ namespace {
 	static const unsigned bufsize = 80; // long enough for how we are using it.
 	char buf[bufsize]; 
 	char *rv = fgets(buf, bufsize, f);
+	fclose(f);
 	SINVARIANT(rv != NULL);
 	unsigned len = strlen(buf);
 	SINVARIANT(len > 0 && buf[len-1] == '\n');
 	buf[len-1] = '\0';
-	fclose(f);
 	return string(buf);
     }
 
@@ -82,13 +82,18 @@ namespace {
 	INVARIANT(dir != NULL, 
 		  format("can't opendir %s(%s), so can't check for frequency scaling")
 		  % cpu_dir % strerror(errno));
-	unsigned cpu_count = 0;
+	vector<string> cpus;
 	struct dirent *ent;
 	while((ent = readdir(dir)) != NULL) {
 	    if (strncmp(ent->d_name, "cpu", 3) == 0 
 		&& isdigit(ent->d_name[3])) {
-		++cpu_count;
-		string dir = cpu_dir + "/" + ent->d_name + "/cpufreq";
+		cpus.push_back(ent->d_name);
+	    }
+	}
+	INVARIANT(closedir(dir) == 0, "closedir failed");
+	INVARIANT(!cpus.empty(), "can't check frequency scaling, no cpus found?");
+	for (vector<string>::iterator i = cpus.begin(); i != cpus.end(); ++i) {
+		string dir = cpu_dir + "/" + *i + "/cpufreq";
 		string min_freq = readFileLine(dir + "/scaling_min_freq");
 		string max_freq = readFileLine(dir + "/scaling_max_freq");
 		string governor = readFileLine(dir + "/scaling_governor");
@@ -98,10 +103,7 @@ namespace {
 		} else {
                     return true;
 		}
-	    }
 	}
-	INVARIANT(closedir(dir) == 0, "closedir failed");
-	INVARIANT(cpu_count > 0, "can't check frequency scaling, no cpus found?");
 
         return false;
     }
-- 
2.43.0


From 7222d7ba1b6f5cfe35ff217fc450d3c5ce2c62f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 12/44] fix: getDeptoolInfo closes the pipe it opened

---
 src/TestUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/TestUtil.cpp b/src/TestUtil.cpp
index 3a6cfaf..d9a8da2 100644
--- a/src/TestUtil.cpp
+++ b/src/TestUtil.cpp
@@ -10,6 +10,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#include <boost/shared_ptr.hpp>
+
 #include <Lintel/TestUtil.hpp>
 
 using namespace std;
@@ -56,6 +58,7 @@ DeptoolInfo getDeptoolInfo() {
         }
         CHECKED(deptool_pipe != NULL, boost::format("Unable to run '%s': %s")
                 % deptool % strerror(errno));
+        boost::shared_ptr<FILE> close_pipe(deptool_pipe, pclose);
         const size_t buf_size = 200;
         char buf[buf_size];
         while (!feof(deptool_pipe) && fgets(buf, buf_size, deptool_pipe) != NULL) {
-- 
2.43.0


From ca28213bac3ed45ca3c4f30ccba070f5ff16354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:58 +0000
Subject: [PATCH 13/44] fix: ProcessStatistics closes its file when
 construction fails and cannot be copied

---
 include/Lintel/unstable/ProcessStatistics.hpp |  4 +++-
 src/unstable/ProcessStatistics.cpp            | 11 ++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/unstable/ProcessStatistics.hpp b/include/Lintel/unstable/ProcessStatistics.hpp
index a1a3fe3..d769876 100644
--- a/include/Lintel/unstable/ProcessStatistics.hpp
+++ b/include/Lintel/unstable/ProcessStatistics.hpp
@@ -11,6 +11,8 @@
 #include <sys/types.h>
 #include <string>
 
+#include <boost/noncopyable.hpp>
+
 namespace lintel {
     /// \brief namespace for process statistics stat types.
     namespace process_statistics {
@@ -27,7 +29,7 @@ namespace lintel {
     /// getrusage on some other unixes.  Note that the meaning of some fields may vary slightly
     /// from platform to platform; e.g. how to count shared pages in resident set size can be
     /// subtly different between different OSes
-    class ProcessStatistics {
+    class ProcessStatistics : boost::noncopyable {
     public:
         typedef process_statistics::StatType StatType;
 
diff --git a/src/unstable/ProcessStatistics.cpp b/src/unstable/ProcessStatistics.cpp
index adeb1b8..86799b8 100644
--- a/src/unstable/ProcessStatistics.cpp
+++ b/src/unstable/ProcessStatistics.cpp
@@ -19,9 +19,14 @@ ProcessStatistics::ProcessStatistics(pid_t p) : pid(p) {
     file_name = (format("/proc/%d/statm") % pid).str();
     CHECKED((fp = fopen(file_name.c_str(), "r"))!=0, format("Can't open %s: %s")
 	    % file_name % strerror(errno));
-    CHECKED(setvbuf(fp, 0, _IONBF, 0)==0, format("Can't set %s unbuffered: %s") 
-	    % file_name % strerror(errno));
-    invalidate();
+    try {
+	CHECKED(setvbuf(fp, 0, _IONBF, 0)==0, format("Can't set %s unbuffered: %s") 
+		% file_name % strerror(errno));
+	invalidate();
+    } catch (...) {
+	fclose(fp);
+	throw;
+    }
 }
 
 ProcessStatistics::~ProcessStatistics() {
-- 
2.43.0


From e4ca98dedb30cfc24e4a874afb47fe5b79a90436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 14/44] fix: BoyerMooreHorspool does not leak its needle when
 refused, and cannot be copied

---
 include/Lintel/BoyerMooreHorspool.hpp | 3 +++
 src/BoyerMooreHorspool.cpp            | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/BoyerMooreHorspool.hpp b/include/Lintel/BoyerMooreHorspool.hpp
index edb53cf..fccf134 100644
--- a/include/Lintel/BoyerMooreHorspool.hpp
+++ b/include/Lintel/BoyerMooreHorspool.hpp
@@ -69,6 +69,9 @@ namespace lintel {
 	/// value returned for no match, same as for string::find
 	static const size_t npos = static_cast<size_t>(-1);
     private:
+	BoyerMooreHorspool(const BoyerMooreHorspool &); // not copyable, owns needle
+	BoyerMooreHorspool &operator =(const BoyerMooreHorspool &);
+
 	void init(size_t needle_len);
 	static const uint32_t uint8_max = 255;
 
diff --git a/src/BoyerMooreHorspool.cpp b/src/BoyerMooreHorspool.cpp
index 42126db..422dc66 100644
--- a/src/BoyerMooreHorspool.cpp
+++ b/src/BoyerMooreHorspool.cpp
@@ -22,6 +22,8 @@
 namespace lintel {
     namespace {
 	uint8_t *memDup(const void *in, size_t len) {
+	    // checked before allocating; nothing frees the copy if the constructor fails
+	    INVARIANT(len > 0, "invalid to search for zero length string");
 	    uint8_t *ret = new uint8_t[len];
 	    memcpy(ret, in, len);
 	    return ret;
@@ -47,7 +49,6 @@ namespace lintel {
     void BoyerMooreHorspool::init(size_t in_len) {
 	needle_length = in_len;
 	last = needle_length - 1;
-	INVARIANT(needle_length > 0, "invalid to search for zero length string");
 
         // initialize the bad character shift array
         for (uint32_t i = 0; i <= uint8_max; ++i) {
-- 
2.43.0


From a26aab756dcc483958a25fa7f94e8acb7a61bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 15/44] fix: Clock frees its bad_get_tod_cycle_gap statistics
 and cannot be copied

---
 include/Lintel/Clock.hpp | 4 ++++
 src/Clock.cpp            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 3482364..0a6af90 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -112,6 +112,7 @@ public:
     static bool isCalibrated();
 
     Clock(bool allow_calibration = false);
+    ~Clock();
 
     static uint64_t cycleCounter() {
 	uint64_t ret = 0;
@@ -336,6 +337,9 @@ public:
     Stats *bad_get_tod_cycle_gap;
     static void timingTest();
     
+private:
+    Clock(const Clock &); // not copyable, owns bad_get_tod_cycle_gap
+    Clock &operator =(const Clock &);
 public:
     static double clock_rate; // MhZ, assume SMP processors run at same rate.
     static double inverse_clock_rate_tfrac; // tfrac/cycle
diff --git a/src/Clock.cpp b/src/Clock.cpp
index 7f48c83..e2ae23b 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -407,6 +407,10 @@ Clock::Clock(bool allow_calibration)
     setRecalibrateIntervalSeconds();
 }
 
+Clock::~Clock() {
+    delete bad_get_tod_cycle_gap;
+}
+
 void Clock::bindToProcessor(unsigned proc) {
 #ifdef HPUX_ACC
     IVNARIANT(proc < pthread_num_processors_np(), "Invalid processor #");
-- 
2.43.0


From cd7785acd24c2b8d44692f99d6c439eb5d4b4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 16/44] fix: Deque growth copes with a value inside the deque
 and with element copies that throw

---
 include/Lintel/Deque.hpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index ba7e61f..114f13c 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -268,29 +268,25 @@ private:
     void push_expand(const T &val) {
 	T *new_deque = allocator.allocate(q_size * 2);
 	size_t i = 0;
-	// copy back to 0 offset
-	if (q_front == 0) {
-	    // special case if it's already 0 offset
-	    for(;i<q_back;i++) {
-		allocator.construct(new_deque + i, deque[i]);
-		allocator.destroy(deque + i);
-	    }
-	} else {
-	    for(size_t j=q_front; j<q_size;++j) {
+	try {
+	    // copy back to 0 offset; the old elements stay until everything has been
+	    // copied, val may be one of them.
+	    for(size_t j=q_front; j != q_back; j = (j + 1) % q_size) {
 		allocator.construct(new_deque + i, deque[j]);
-		allocator.destroy(deque + j);
 		++i;
 	    }
-	    for(size_t j=0;j<q_back;++j) {
-		allocator.construct(new_deque + i, deque[j]);
-		allocator.destroy(deque + j);
-		++i;
+	    INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
+		      % i % q_size % q_front % q_back);
+	    allocator.construct(new_deque + i, val);
+	} catch (...) {
+	    while(i > 0) {
+		--i;
+		allocator.destroy(new_deque + i);
 	    }
+	    allocator.deallocate(new_deque, q_size * 2);
+	    throw;
 	}
-	INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
-                  % i % q_size % q_front % q_back);
-	q_front = 0;
-	allocator.construct(new_deque + i, val);
+	clear();
 	q_back = i + 1;
 	allocator.deallocate(deque, q_size);
 	q_size = q_size * 2;
-- 
2.43.0


From d820996149d7b20c1f408956b9d70cabdaef5bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 17/44] fix: Deque destroys the elements it still holds when it
 is destroyed

---
 include/Lintel/Deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index 114f13c..de0cc55 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     ~Deque() {
+	clear();
 	allocator.deallocate(deque, q_size);
     }
     typedef Deque<T> mytype;
-- 
2.43.0


From 8bb308c2c04a518f47bad979f4226a7c3930111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 18/44] fix: LintelLog::setDebugLevel does not leak its match
 when a mutex operation fails

---
 src/LintelLog.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 95c5fc1..33e4a56 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -89,11 +89,9 @@ void LintelLog::setDebugLevel(const string &category, uint8_t level) {
 	SimpleScopedLock lock(instance->mutex);
 	SINVARIANT(instance->complex_matches.size() < instance->complex_matches.capacity());
 
+	// complex_matches is only read with the mutex held, so no further barrier is needed
 	instance_data::complex_match *tmp 
 	    = new instance_data::complex_match(category.substr(0, category.size() - 1), level);
-	SimpleMutex memory_barrier;
-	memory_barrier.lock();
-	memory_barrier.unlock();
 	instance->complex_matches.push_back(tmp);
 
         // update any categories we have already setup.
-- 
2.43.0


From 9d965afb2af56a024008d3ddb69c9187493f0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 19/44] fix: PriorityQueue keeps its array intact when growing
 it is abandoned by an exception

---
 include/Lintel/PriorityQueue.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 06da055..d1886b2 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -196,8 +196,9 @@ public:
 	INVARIANT(empty(), "Lame implementation only able to reserve empty priority queue");
 		  
 	if (amt > pq_size) {
+	    T *pq_new = new T[amt];
 	    delete [] pq;
-	    pq = new T[amt];
+	    pq = pq_new;
 	    size_available = amt;
 	}
     }
@@ -220,8 +221,13 @@ private:
     LessImportant lessimportant;
     void double_size() {
 	T *pq_new = new T[size_available * 2];
-	for(unsigned i=0;i<size_available;i++) {
-	    pq_new[i] = pq[i];
+	try {
+	    for(unsigned i=0;i<size_available;i++) {
+		pq_new[i] = pq[i];
+	    }
+	} catch (...) {
+	    delete [] pq_new;
+	    throw;
 	}
 	delete [] pq;
 	pq = pq_new;
-- 
2.43.0


From d5f2b0e1aed2640395406016bbaf9e049f51ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 20/44] fix: StatsHistogram classes free their bins when they
 grow, are destroyed or fail to be built, and cannot be copied

---
 include/Lintel/StatsHistogram.hpp |  9 +++++++++
 src/StatsHistogram.cpp            | 22 ++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 49e743d..c1b4457 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -97,6 +97,10 @@ public:
 
     //----Sometimes we want another one of these, just like this one, but fresh.
     virtual Stats *another_new() const = 0;
+private:
+    // not copyable, the histograms own their bins
+    StatsHistogram(const StatsHistogram &);
+    StatsHistogram &operator =(const StatsHistogram &);
 };
 
 
@@ -337,6 +341,11 @@ public:
     virtual void printRome(int depth, std::ostream &out) const;
   
 private:
+    // not copyable, owns the histograms
+    StatsHistogramGroup(const StatsHistogramGroup &);
+    StatsHistogramGroup &operator =(const StatsHistogramGroup &);
+    void freeHistograms();
+
     std::vector<StatsHistogram *> histograms;
     const std::vector<StatsHistogram::HistMode> modes;
     const std::vector<double> ranges;
diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 0a848a6..03b0325 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -120,8 +120,8 @@ void StatsHistogramUniform::add(const double value) {
 	    // zero the new bins, and then copy the old values over
 	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
 	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    //	    delete old_bins; // suppressed for now ...
 	    bins = new_bins;
+	    delete [] old_bins;
 	    num_bins = new_num_bins;
 	    bin_high = bin_low + new_num_bins * bin_width;
 	} else {
@@ -139,8 +139,8 @@ void StatsHistogramUniform::add(const double value) {
 	    memset(new_bins, 0, sizeof(long) * new_num_bins);
 	    memcpy(&new_bins[new_num_bins - num_bins],
 		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    // delete old_bins;
 	    bins = new_bins;
+	    delete [] old_bins;
 	    num_bins = new_num_bins;
 	    bin_low = bin_high - new_num_bins * bin_width;
 	}
@@ -726,8 +726,8 @@ StatsHistogramLogAccum::StatsHistogramLogAccum(const unsigned bins_in,
 }
 
 StatsHistogramLogAccum::~StatsHistogramLogAccum() {
-    delete[] bins;
-    bins = NULL;
+    delete[] val_bins;
+    val_bins = NULL;
 }
 
 void StatsHistogramLogAccum::reset() {
@@ -816,6 +816,7 @@ StatsHistogramGroup::StatsHistogramGroup(const StatsHistogram::HistMode mode,
     INVARIANT(ranges.size() >= 2, "StatsHistogramGroup: must have at"
 	      "least two values in ranges vector.");
     histograms.resize(ranges.size()-1);
+    try {
     for(unsigned int i=0;i<histograms.size();i++) {
 	switch(mode) 
 	    {
@@ -835,6 +836,10 @@ StatsHistogramGroup::StatsHistogramGroup(const StatsHistogram::HistMode mode,
 		FATAL_ERROR("I didn't get here.");
 	    }
     }
+    } catch (...) {
+	freeHistograms();
+	throw;
+    }
 }
 
 StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistMode> &_modes, 
@@ -850,6 +855,7 @@ StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistM
     INVARIANT(buckets.size() == (ranges.size() - 1), "StatsHistogramGroup: "
 	      "must supply one bucket value per range in buckets vector.");
     histograms.resize(ranges.size()-1);
+    try {
     for(unsigned int i=0;i<histograms.size();i++) {
 	switch(modes[i]) 
 	    {
@@ -869,9 +875,17 @@ StatsHistogramGroup::StatsHistogramGroup(const std::vector<StatsHistogram::HistM
 		FATAL_ERROR("I didn't get here.");
 	    }
     }
+    } catch (...) {
+	freeHistograms();
+	throw;
+    }
 }
 
 StatsHistogramGroup::~StatsHistogramGroup() {
+  freeHistograms();
+}
+
+void StatsHistogramGroup::freeHistograms() {
   for(unsigned int i=0;i<histograms.size();i++) {
     delete histograms[i];
     histograms[i] = NULL;
-- 
2.43.0


From 8a946e84655accb5cdc47a014fecc153e1fa148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 21/44] fix: Matrix::resize frees the old elements and a Matrix
 cannot be copied

---
 include/Lintel/Matrix.hpp | 2 ++
 src/Matrix.cpp            | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Matrix.hpp b/include/Lintel/Matrix.hpp
index 62cb3f0..6da2c5f 100644
--- a/include/Lintel/Matrix.hpp
+++ b/include/Lintel/Matrix.hpp
@@ -59,6 +59,8 @@ public:
     void print();
     static void selfTest();
 private:
+    Matrix(const Matrix &); // not copyable, owns data
+    Matrix &operator =(const Matrix &);
 #if BELIEVE_INLINE
     inline double *elem(unsigned int row, unsigned int col) {
 	DEBUG_SINVARIANT(row < nrows && col < ncols);
diff --git a/src/Matrix.cpp b/src/Matrix.cpp
index 510205d..dd38917 100644
--- a/src/Matrix.cpp
+++ b/src/Matrix.cpp
@@ -14,6 +14,7 @@
 #include <Lintel/Matrix.hpp>
 
 Matrix::Matrix(unsigned int rows, unsigned int cols)
+    : data(NULL), nrows(0), ncols(0)
 {
     resize(rows,cols);
 }
@@ -26,9 +27,11 @@ Matrix::~Matrix()
 void
 Matrix::resize(unsigned int rows, unsigned int cols)
 {
+    double *new_data = new double[rows * cols];
+    delete [] data;
+    data = new_data;
     nrows = rows;
     ncols = cols;
-    data = new double[rows * cols];
     setConstant(0.0);
 }
 
-- 
2.43.0


From f410225c1f9440f3a8e1d509fe2ff4330e5bec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 22/44] fix: StatsSeries frees its arrays with delete [] and
 cannot be copied

---
 include/Lintel/StatsSeries.hpp | 3 +++
 src/StatsSeries.cpp            | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/StatsSeries.hpp b/include/Lintel/StatsSeries.hpp
index 5c66c37..25e20ac 100644
--- a/include/Lintel/StatsSeries.hpp
+++ b/include/Lintel/StatsSeries.hpp
@@ -49,6 +49,9 @@ public:
   
     virtual std::string debugString() const;
     virtual Stats *another_new() const;
+private:
+    StatsSeries(const StatsSeries &); // not copyable, owns the sample arrays
+    StatsSeries &operator =(const StatsSeries &);
 };
 
 #endif /* _LINTEL_STATSSERIES_H_INCLUDED */
diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 803963a..300626b 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -64,11 +64,11 @@ StatsSeries::StatsSeries(unsigned maxlag_in)
 
 StatsSeries::~StatsSeries()
 {
-  delete samples;
+  delete [] samples;
   samples = NULL;
-  delete product;
+  delete [] product;
   product = NULL;
-  delete firstsamples;
+  delete [] firstsamples;
   firstsamples = NULL;
   max_lag = 0;
 }
-- 
2.43.0


From e011a13437ef6f7c7ee8aabc227ec29fd508453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 23/44] fix: StatsSeriesGroup frees its statistics when
 destroyed and cannot be copied

---
 include/Lintel/StatsSeriesGroup.hpp | 4 ++++
 src/StatsSeriesGroup.cpp            | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/include/Lintel/StatsSeriesGroup.hpp b/include/Lintel/StatsSeriesGroup.hpp
index 22a624e..54a422a 100644
--- a/include/Lintel/StatsSeriesGroup.hpp
+++ b/include/Lintel/StatsSeriesGroup.hpp
@@ -10,6 +10,7 @@
 */
 
 #ifndef LINTEL_STATSSERIESGROUP_HPP
+#define LINTEL_STATSSERIESGROUP_HPP
 
 #include <vector>
 
@@ -23,6 +24,7 @@
 class StatsSeriesGroup : public Stats {
 public:
     StatsSeriesGroup(const std::string &_myname, double interval);
+    virtual ~StatsSeriesGroup();
     virtual void add(const double value); // asserts out, shouldn't be called
     virtual void add(const Stats &stat); // attempt to merge two stats
     virtual void addTimeSeq(const double value, const double timeSeq);
@@ -40,6 +42,8 @@ public:
     virtual void printTabular(int depth, std::ostream &out) const; 
     void setSeriesStart(const double timeSeq);
 private:
+    StatsSeriesGroup(const StatsSeriesGroup &); // not copyable, owns stats
+    StatsSeriesGroup &operator =(const StatsSeriesGroup &);
     void addStat();
     std::vector<Stats *> stats;
     double interval;
diff --git a/src/StatsSeriesGroup.cpp b/src/StatsSeriesGroup.cpp
index fa1b48a..df740f6 100644
--- a/src/StatsSeriesGroup.cpp
+++ b/src/StatsSeriesGroup.cpp
@@ -23,6 +23,13 @@ StatsSeriesGroup::StatsSeriesGroup(const std::string &_myname, double _interval)
     INVARIANT(last_time != last_time, "IEEE violation??");
 }
 
+StatsSeriesGroup::~StatsSeriesGroup()
+{
+    for(unsigned int i=0;i<stats.size();i++) {
+	delete stats[i];
+    }
+}
+
 void
 StatsSeriesGroup::add(const double)
 {
-- 
2.43.0


From 37d30a68ec07520edfdcaf255ff40deb46b020b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 24/44] fix: StatsRW frees its statistics when one cannot be
 made, and cannot be copied

---
 include/Lintel/StatsRW.hpp |  2 ++
 src/StatsRW.cpp            | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/Lintel/StatsRW.hpp b/include/Lintel/StatsRW.hpp
index 721cdd0..b01ed7f 100644
--- a/include/Lintel/StatsRW.hpp
+++ b/include/Lintel/StatsRW.hpp
@@ -33,6 +33,8 @@ public:
     virtual void printRome(int depth, std::ostream &out) const;
     virtual void printTabular(int depth, std::ostream& out) const;
 private:
+    StatsRW(const StatsRW &); // not copyable, owns the three statistics
+    StatsRW &operator =(const StatsRW &);
     void finish_init();
     Stats *read, *write, *all;
     bool autoAll; // will automatically add things into the all category
diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 8f71f2e..c1b3997 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -13,15 +13,22 @@
 #include <Lintel/StatsSeriesGroup.hpp>
 
 StatsRW::StatsRW(const std::string &name) 
+    : read(NULL), write(NULL), all(NULL)
 {
     std::string tmp_name;
 
-    tmp_name = name + "-read";
-    read = StatsMaker::make(tmp_name);
-    tmp_name = name + "-write";
-    write = StatsMaker::make(tmp_name);
-    tmp_name = name + "-all";
-    all = StatsMaker::make(tmp_name);
+    try {
+	tmp_name = name + "-read";
+	read = StatsMaker::make(tmp_name);
+	tmp_name = name + "-write";
+	write = StatsMaker::make(tmp_name);
+	tmp_name = name + "-all";
+	all = StatsMaker::make(tmp_name);
+    } catch (...) {
+	delete read;
+	delete write;
+	throw;
+    }
     finish_init();
 }
 
-- 
2.43.0


From b105c4da546e08066d9e35bb718fbc27394425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 25/44] fix: ByteBuffer does not leak the new buffer when a
 resize or copy is refused

---
 include/Lintel/ByteBuffer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 0cd3075..1334553 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -113,11 +113,11 @@ namespace lintel {
 	    } else {
                 LintelLogDebug("ByteBuffer", boost::format("resizing bytebuffer %p from %d to %d") 
                                % static_cast<void *>(this) % data_size % new_size);
+		SINVARIANT(readAvailable() <= new_size);
 		uint8_t *new_data = new uint8_t[new_size];
 		
 		if (!empty()) {
 		    size_t old_available = readAvailable();
-		    SINVARIANT(old_available <= new_size);
 		    memcpy(new_data, readStart(), old_available);
 		    back = old_available;
 		} else {
@@ -530,11 +530,11 @@ namespace lintel {
 	/// underlying buffer.
 	void forceUnique() {
 	    if (!rep.unique()) {
-		NoCopyByteBuffer *new_buf = new NoCopyByteBuffer();
+		boost::shared_ptr<NoCopyByteBuffer> new_buf(new NoCopyByteBuffer());
 		new_buf->resizeBuffer(rep->readAvailable());
 		memcpy(new_buf->writeStart(rep->readAvailable()), 
 		       rep->readStart(), rep->readAvailable());
-		rep.reset(new_buf);
+		rep = new_buf;
 	    }
 	}	    
 
-- 
2.43.0


From 4eb18892142b2274758900096305b6f23d317451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 26/44] fix: RotatingHashMap keeps its tables when making a new
 one fails, and cannot be copied

---
 include/Lintel/RotatingHashMap.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/Lintel/RotatingHashMap.hpp b/include/Lintel/RotatingHashMap.hpp
index 9af1378..f892a15 100644
--- a/include/Lintel/RotatingHashMap.hpp
+++ b/include/Lintel/RotatingHashMap.hpp
@@ -51,9 +51,14 @@ public:
     typedef boost::function<void (const K &, V &)> RotateFn;
     typedef HashMap<K,V,KHash,KEqual> HashMapT;
 
-    RotatingHashMap() {
-	table_recent = new HashMapT; // HashMap<K,V>;
-	table_old = new HashMapT; // HashMap<K,V>;
+    RotatingHashMap() : table_recent(NULL), table_old(NULL) {
+	try {
+	    table_recent = new HashMapT; // HashMap<K,V>;
+	    table_old = new HashMapT; // HashMap<K,V>;
+	} catch (...) {
+	    delete table_recent;
+	    throw;
+	}
     }
 
     ~RotatingHashMap() {
@@ -115,9 +120,10 @@ public:
     }
 
     void rotate() {
+	HashMapT *table_new = new HashMapT; // HashMap<K,V>();
 	delete table_old;
 	table_old = table_recent;
-	table_recent = new HashMapT; // HashMap<K,V>();
+	table_recent = table_new;
     }
 
     /** use like rotate(boost::bind(test_fn, _1, _2)); with test_fn
@@ -185,6 +191,9 @@ public:
 	return table_recent->memoryUsage() + table_old->memoryUsage();
     }
 private:
+    RotatingHashMap(const RotatingHashMap &); // not copyable, owns the tables
+    RotatingHashMap &operator =(const RotatingHashMap &);
+
     typedef typename HashMapT::iterator hm_iterator;
     // HashMap<K,V> *table_recent, *table_old;
     HashMapT *table_recent, *table_old;
-- 
2.43.0


From 103f7e8f48f8ea7c7e8a4e8fa5e8612a71bfeba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 27/44] fix: the per-thread Clock is freed when its thread ends

---
 src/ClockPThread.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ClockPThread.cpp b/src/ClockPThread.cpp
index 9f7dbae..4500293 100644
--- a/src/ClockPThread.cpp
+++ b/src/ClockPThread.cpp
@@ -7,6 +7,10 @@ static bool did_per_thread_init;
 
 namespace {
     PThreadScopedOnlyMutex mutex;
+
+    void deletePerThreadClock(void *clock) {
+	delete static_cast<Clock *>(clock);
+    }
 }
 
 void Clock::perThreadInit() {
@@ -22,7 +26,7 @@ void Clock::perThreadInit() {
     //INVARIANT(!did_per_thread_init, "already did Clock::perThreadInit");
 
     did_per_thread_init = true;
-    INVARIANT(pthread_key_create(&per_thread_clock, NULL) == 0, "bad");
+    INVARIANT(pthread_key_create(&per_thread_clock, deletePerThreadClock) == 0, "bad");
     Clock::calibrateClock();
 }
 
@@ -33,6 +37,9 @@ Clock &Clock::perThread() {
 		  "you need to call Clock::perThreadInit before calling Clock::perThread()");
 	c = new Clock;
 	int ret = pthread_setspecific(per_thread_clock, c);
+	if (ret != 0) {
+	    delete c;
+	}
 	INVARIANT(ret == 0, boost::format("pthread_setspecific failed: %s") % strerror(ret));
     }
     return *c;
-- 
2.43.0


From 986436eaf953e82b887f085beca862a52f7c0769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 28/44] fix: HashTupleStats::walkZeros frees its zero statistic
 when a callback throws

---
 include/Lintel/HashTupleStats.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index 3fc329c..d7e3226 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -13,6 +13,7 @@
 #include <bitset>
 
 #include <boost/bind.hpp>
+#include <boost/scoped_ptr.hpp>
 
 #include <Lintel/HashTable.hpp>
 #include <Lintel/HashUnique.hpp>
@@ -191,7 +192,8 @@ namespace lintel {
 	/// of the hash unique tuple and therefore avoid walking over
 	/// some of the entries.
 	void walkZeros(const WalkFn &walk_fn, const HashUniqueTuple &hut, bool count_zeros) const {
-	    StatsT *zero = stats_factory_fn();
+	    boost::scoped_ptr<StatsT> zero(stats_factory_fn());
+	    SINVARIANT(zero != NULL);
 
 	    if (count_zeros) {
 		zero->add(0);
@@ -199,8 +201,6 @@ namespace lintel {
 
 	    Tuple tmp_key;
 	    detail::zeroWalk(hut, tmp_key, tmp_key, data, *zero, walk_fn);
-	
-	    delete zero;
 	}
 
 	/// Get the hash entry for a particular key, create it if it
-- 
2.43.0


From 4733084add8e859b8e43240332181497d7a054ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 29/44] fix: HashTupleStats and StatsCube own their statistics
 and cannot be copied

---
 include/Lintel/HashTupleStats.hpp | 3 +++
 include/Lintel/StatsCube.hpp      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index d7e3226..9551452 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -255,6 +255,9 @@ namespace lintel {
 	}
 
     private:
+	HashTupleStats(const HashTupleStats &);		  // not implemented; owns
+	HashTupleStats &operator=(const HashTupleStats &); // the statistics
+
 	HTSMap data;
 	StatsFactoryFn stats_factory_fn;
     };
diff --git a/include/Lintel/StatsCube.hpp b/include/Lintel/StatsCube.hpp
index b691f34..e1929b7 100644
--- a/include/Lintel/StatsCube.hpp
+++ b/include/Lintel/StatsCube.hpp
@@ -256,6 +256,9 @@ namespace lintel {
 	/// returns it.
 	HashTupleStats<Tuple, BaseStatsT> base_data;
     private:
+	StatsCube(const StatsCube &);		 // not implemented; owns
+	StatsCube &operator=(const StatsCube &); // the statistics
+
 	void cubeAddOne(MyAny &key, size_t pos, bool had_any, const StatsT &value) {
 	    if (pos == key.length) {
 		if (optional_cube_partial_fn(had_any, key)) {
-- 
2.43.0


From 1dc6054e09038f15936d3421fb17afebdf9f92db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 30/44] fix: HashTupleStats and StatsCube never keep an entry
 without a statistic

---
 include/Lintel/HashTupleStats.hpp | 17 ++++++++++++-----
 include/Lintel/StatsCube.hpp      | 18 +++++++++++++-----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/Lintel/HashTupleStats.hpp b/include/Lintel/HashTupleStats.hpp
index 9551452..03d730d 100644
--- a/include/Lintel/HashTupleStats.hpp
+++ b/include/Lintel/HashTupleStats.hpp
@@ -206,11 +206,18 @@ namespace lintel {
 	/// Get the hash entry for a particular key, create it if it
 	/// doesn't already exist.
 	StatsT &getHashEntry(const Tuple &key) {
-	    StatsT * &v = data[key];
-
-	    if (v == NULL) {
-		v = stats_factory_fn();
-		SINVARIANT(v != NULL);
+	    StatsT **found = data.lookup(key);
+	    if (found != NULL) {
+		return **found;
+	    }
+	    // only enter a statistic that exists; the factory may throw
+	    StatsT *v = stats_factory_fn();
+	    SINVARIANT(v != NULL);
+	    try {
+		data[key] = v;
+	    } catch (...) {
+		delete v;
+		throw;
 	    }
 	    return *v;
 	}
diff --git a/include/Lintel/StatsCube.hpp b/include/Lintel/StatsCube.hpp
index e1929b7..e5f3e03 100644
--- a/include/Lintel/StatsCube.hpp
+++ b/include/Lintel/StatsCube.hpp
@@ -200,11 +200,19 @@ namespace lintel {
 
 	/// Get a particular cube entry as specifies by key; create it
 	/// if it does not exist.
-	Stats &getCubeEntry(const MyAny &key) {
-	    Stats * &v = cube_data[key];
-
-	    if (v == NULL) {
-		v = stats_factory_fn();
+	StatsT &getCubeEntry(const MyAny &key) {
+	    StatsT **found = cube_data.lookup(key);
+	    if (found != NULL) {
+		return **found;
+	    }
+	    // only enter a statistic that exists; the factory may throw
+	    StatsT *v = stats_factory_fn();
+	    SINVARIANT(v != NULL);
+	    try {
+		cube_data[key] = v;
+	    } catch (...) {
+		delete v;
+		throw;
 	    }
 	    return *v;
 	}
-- 
2.43.0


From 2f537eeced76ef241b45c6a8ab9876f73b01bd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 31/44] fix: posix::read0's error message is given the number
 of bytes it names

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index 6d43e59..b8e8819 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -64,7 +64,7 @@ namespace posix {
 	ssize_t amt = ::read(fd, buf, nbyte);
 	INVARIANT(amt == static_cast<ssize_t>(nbyte), 
 		  boost::format("Read0(%d, %p, %d): only got %d bytes: %s")
-		  % fd % buf % nbyte % strerror(errno));
+		  % fd % buf % nbyte % amt % strerror(errno));
     };
 
     inline ssize_t readN(int fd, void *buf, size_t nbyte) {
-- 
2.43.0


From 8dd6a06447311735a97f5cf6333629a8fc52614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 32/44] fix: Marsaglia generators start from a defined position

---
 include/Lintel/MarsagliaRandom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index c60a73f..b1adac6 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -104,6 +104,7 @@ namespace lintel {
                 x[i] = r.randInt();
             }
             c = r.randIntUnbiased(A);
+            i = SIZE - 1; // the first value drawn updates x[0]
         }
         
         inline uint32_t randInt() {
-- 
2.43.0


From 7c4b7aae58ea72347c705bc71d2c1fb418c1a586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 33/44] fix: a wildcard AnyPair does not hold an indeterminate
 value

---
 include/Lintel/Tuples.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Tuples.hpp b/include/Lintel/Tuples.hpp
index 140f541..324d2e3 100644
--- a/include/Lintel/Tuples.hpp
+++ b/include/Lintel/Tuples.hpp
@@ -181,7 +181,7 @@ namespace tuples {
     template<typename T> struct AnyPair {
         bool any;
         T val;
-        AnyPair() : any(true) { }
+        AnyPair() : any(true), val() { }
         AnyPair(const T &v) : any(false), val(v) { }
         void set(const T &v) { val = v; any = false; }
 
-- 
2.43.0


From 03b24a29fe1ac1b0e9b0552f33c615ce77dd2d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 34/44] fix: HashTable iterator reset() on an emptied table is
 the end iterator

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 54e5590..43a0a79 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -328,6 +328,7 @@ private:
 
 	void reset() {
 	    cur_chain = 0;
+	    chain_loc = -1; // as at construction, for a table with no entries
 	    findNonemptyChain();
 	}
 	int32_t getCurChain() {
-- 
2.43.0


From 8585741cba03a7015afa0a181a3371d09ff09b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 35/44] fix: reseeding a random generator restarts its boolean
 stream too

---
 include/Lintel/RandomBase.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Lintel/RandomBase.hpp b/include/Lintel/RandomBase.hpp
index 855385c..806103f 100644
--- a/include/Lintel/RandomBase.hpp
+++ b/include/Lintel/RandomBase.hpp
@@ -24,10 +24,14 @@ namespace lintel {
 
         inline void init(uint32_t seed) {
             R::init(seed);
+            boolShift = 0;
+            boolState = 0;
         }
 
         inline void initArray(std::vector<uint32_t> seed_array) {
             R::initArray(seed_array);
+            boolShift = 0;
+            boolState = 0;
         }       
 
         inline uint32_t randInt() {
-- 
2.43.0


From fb25ffd54ef41b11ab631a4ad289d0e9cdd1bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 36/44] fix: StatsSeriesGroup::reset resets the inherited
 statistic too

---
 src/StatsSeriesGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StatsSeriesGroup.cpp b/src/StatsSeriesGroup.cpp
index df740f6..06bf243 100644
--- a/src/StatsSeriesGroup.cpp
+++ b/src/StatsSeriesGroup.cpp
@@ -79,6 +79,7 @@ StatsSeriesGroup::addTimeSeq(const double value, const double timeSeq)
 void
 StatsSeriesGroup::reset()
 {
+    Stats::reset();
     for(unsigned int i=0;i<stats.size();i++) {
 	delete stats[i];
     }
-- 
2.43.0


From f6bb038968ad5d5c0d45e777c8e84489a5de2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 37/44] fix: AssertExceptionT::stringPrintF formats long
 messages in full

---
 src/AssertException.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/AssertException.cpp b/src/AssertException.cpp
index 5a19d8c..ca1ed0f 100644
--- a/src/AssertException.cpp
+++ b/src/AssertException.cpp
@@ -20,7 +20,6 @@ AssertExceptionT::~AssertExceptionT() throw()
 std::string
 AssertExceptionT::stringPrintF(const char *format, ...) 
 {
-  // could dynamically size up to get a long enough string
   std::string ret;
 
   ret.resize(1024);
@@ -30,6 +29,12 @@ AssertExceptionT::stringPrintF(const char *format, ...)
   int actual_size = vsnprintf(&ret[0], ret.size(), format, ap);
 
   va_end(ap);
+  if (actual_size >= static_cast<int>(ret.size())) { // did not fit
+    ret.resize(actual_size + 1);
+    va_start(ap, format);
+    actual_size = vsnprintf(&ret[0], ret.size(), format, ap);
+    va_end(ap);
+  }
   ret.resize(actual_size);
   return ret;
 }
-- 
2.43.0


From 2500c9b0ab444632d66404ad74aaafe8e0a164dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 38/44] fix: ByteBuffer::replace refuses an offset + length
 that wraps around

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 1334553..afed0dc 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -441,7 +441,7 @@ namespace lintel {
 	/// @param src source data for replacing
 	/// @param length length of data for replacing
         void replace(size_t offset, const void *src, size_t length) {
-	    SINVARIANT(offset + length <= readAvailable());
+	    SINVARIANT(length <= readAvailable() && offset <= readAvailable() - length);
 	    memcpy(writeableReadStart() + offset, src, length);
 	}
 
-- 
2.43.0


From 76ea49b85f5293c9e349203d971768108f02f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:52 +0000
Subject: [PATCH 39/44] fix: ByteBuffer append and assign accept the buffer
 itself

---
 include/Lintel/ByteBuffer.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index afed0dc..e1293a2 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -342,7 +342,13 @@ namespace lintel {
 	/// append contents of @param buf to this buffer, resizing if necessary.
 	/// @param buf source buffer for append into this buffer
 	void append(const ByteBuffer &buf) {
-	    append(buf.readStart(), buf.readAvailable());
+	    size_t size = buf.readAvailable();
+	    if (writeAvailable() < size) {
+		// before looking at buf's bytes, as buf may be this buffer
+		resizeBuffer(bufferSize() + (size - writeAvailable()));
+	    }
+	    uint8_t *to = writeStart(size);
+	    memcpy(to, buf.readStart(), size);
 	}
 
 	/// append contents of @param str to this buffer, resizing if necessary.
@@ -485,6 +491,9 @@ namespace lintel {
 	/// Copy the value in @param src into this ByteBuffer,
 	/// overwriting any prior contents.
 	void assign(const ByteBuffer &src) {
+	    if (this == &src) {
+		return;
+	    }
 	    reset();
 	    append(src.readStart(), src.readAvailable());
 	}
-- 
2.43.0


From 79c32fa1f10132631518e86f171409d4b7f59b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 40/44] fix: PriorityQueue push and replaceTop accept an
 element of the queue itself

---
 include/Lintel/PriorityQueue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index d1886b2..365eba9 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -136,7 +136,8 @@ public:
 	--pq_size;
     }
 
-    void push(const T &val) {
+    void push(const T &_val) {
+	const T val(_val); // _val may be one of our elements, which are about to move
 	if (pq_size == size_available) {
 	    double_size();
 	}
@@ -156,7 +157,8 @@ public:
 
     /// equivalent to this->pop(), this->push(val), but roughly 2x as
     /// efficient
-    void replaceTop(const T &val) {
+    void replaceTop(const T &_val) {
+	const T val(_val); // _val may be one of our elements, which are about to move
 	uint32_t cur_pos = 0;
 	while(1) {
 	    uint32_t down_left = 2*cur_pos + 1;
-- 
2.43.0


From fff05d7158151e70b51db6d2068ae4fca9b0aa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 41/44] fix: RotatingHashMap::remove accepts the key of the
 entry it removes

---
 include/Lintel/RotatingHashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/RotatingHashMap.hpp b/include/Lintel/RotatingHashMap.hpp
index f892a15..4686167 100644
--- a/include/Lintel/RotatingHashMap.hpp
+++ b/include/Lintel/RotatingHashMap.hpp
@@ -112,8 +112,9 @@ public:
 
     /** returns true if something was removed */
     bool remove(const K &k, bool must_exist = true) {
-	bool exists_recent = table_recent->remove(k, false);
-	bool exists_old = table_old->remove(k, false);
+	const K key(k); // k may be the key of the entry that is removed
+	bool exists_recent = table_recent->remove(key, false);
+	bool exists_old = table_old->remove(key, false);
 	DEBUG_SINVARIANT(!exists_recent || !exists_old);
  	SINVARIANT(!must_exist || exists_recent || exists_old);
 	return exists_recent || exists_old;
-- 
2.43.0


From 1fdeaa1bd790ac3c8c667722cd90441f01addf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 42/44] fix: RotatingHashMap::lookup accepts a key that lives
 in the map

---
 include/Lintel/RotatingHashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/RotatingHashMap.hpp b/include/Lintel/RotatingHashMap.hpp
index 4686167..f952897 100644
--- a/include/Lintel/RotatingHashMap.hpp
+++ b/include/Lintel/RotatingHashMap.hpp
@@ -71,8 +71,9 @@ public:
 	if (ret == NULL) {
 	    ret = table_old->lookup(k);
 	    if (ret != NULL) {
-		V &tmp = (*table_recent)[k] = *ret;
-		table_old->remove(k);
+		const K key(k); // k may live in the map, whose entries move
+		V &tmp = (*table_recent)[key] = *ret;
+		table_old->remove(key);
 		ret = &tmp;
 	    }
 	} else {
-- 
2.43.0


From 0ee91c812cce8f7d196545a9264df681d446ad99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 43/44] fix: bytes from 0x80 are not negative for character
 classification

---
 src/Clock.cpp      |  2 +-
 src/StringUtil.cpp | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Clock.cpp b/src/Clock.cpp
index e2ae23b..df3b3b0 100644
--- a/src/Clock.cpp
+++ b/src/Clock.cpp
@@ -86,7 +86,7 @@ namespace {
 	struct dirent *ent;
 	while((ent = readdir(dir)) != NULL) {
 	    if (strncmp(ent->d_name, "cpu", 3) == 0 
-		&& isdigit(ent->d_name[3])) {
+		&& isdigit(static_cast<unsigned char>(ent->d_name[3]))) {
 		cpus.push_back(ent->d_name);
 	    }
 	}
diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 15c69b8..7afabe1 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -166,7 +166,8 @@ string maybehexstring(const void *_data, unsigned datasize) {
 
 string maybehexstring(const string &a) {
     for(unsigned int i=0;i<a.size();++i) {
-        if (isprint(a[i]) && isascii(a[i])) {
+        unsigned char c = a[i]; // isprint and isascii are not defined for negative chars
+        if (isprint(c) && isascii(c)) {
             // ok, openbsd considers 0xbf printable, but not ascii
         } else {
 	    return hexstring(a);
@@ -176,7 +177,7 @@ string maybehexstring(const string &a) {
 }
 
 namespace {
-    inline bool eu_escape(char c) {
+    inline bool eu_escape(unsigned char c) {
         return !(isprint(c) && isascii(c)) || c == '%';
     }
 }
@@ -284,7 +285,7 @@ bool ishexstring(const string &in) {
 	return false;
     }
     for(uint32_t i = 0; i < in.size(); ++i) {
-	if (!isxdigit(in[i])) {
+	if (!isxdigit(static_cast<unsigned char>(in[i]))) {
 	    return false;
 	}
     }
@@ -350,7 +351,7 @@ bool stringIsBlank(const string &str)
     size_t n = str.size();
 
     for (size_t i = 0; i < n; i++) {
-	if (!isblank(str[i])) return false;
+	if (!isblank(static_cast<unsigned char>(str[i]))) return false;
     }
     return true;
 }
@@ -360,7 +361,7 @@ bool stringIsSpace(const string &str)
     size_t n = str.size();
 
     for (size_t i = 0; i < n; i++) {
-	if (!isspace(str[i])) return false;
+	if (!isspace(static_cast<unsigned char>(str[i]))) return false;
     }
     return true;
 }
@@ -443,7 +444,7 @@ string downcaseString(const string &s) {
     string::size_type len = r.length();
     
     for (string::size_type i = 0; i < len; i++) {
-	r[i] = tolower(r[i]);
+	r[i] = tolower(static_cast<unsigned char>(r[i]));
     }
     return r;
 }
@@ -453,7 +454,7 @@ string upcaseString(const string &s) {
     string::size_type len = r.length();
     
     for (string::size_type i = 0; i < len; i++) {
-	r[i] = toupper(r[i]);
+	r[i] = toupper(static_cast<unsigned char>(r[i]));
     }
     return r;
 }
-- 
2.43.0


From 51f44f705059560a4dc26d19a0ab6166790749da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:55 +0000
Subject: [PATCH 44/44] fix: Base64 decoding does not index its table with
 negative chars

---
 include/Lintel/Base64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index 2f21996..8971ab6 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -46,7 +46,7 @@ namespace lintel {
 	    uint32_t bits = 0;
 	    for(size_t in_off = 0;
 		in_off < size && out_off < ret_size; ++in_off) {
-		trans_buf += ((uint32_t)table[(uint32_t)data[in_off]]) << (32-6-bits);
+		trans_buf += ((uint32_t)table[static_cast<uint8_t>(data[in_off])]) << (32-6-bits);
 		bits += 6;
 		if (bits >= 8) {
 		    ret[out_off] = trans_buf >> (32-8);
-- 
2.43.0

