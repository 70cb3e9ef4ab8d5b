CK="src/Clock.cpp"; SQ="src/StatsQuantile.cpp"; LL="src/LintelLog.cpp"; PT="src/PThread.cpp"; SU="src/StringUtil.cpp"; AB="src/AssertBoost.cpp"; AE="src/AssertException.cpp"; SM="src/SimpleMutex.cpp"; BB="include/Lintel/ByteBuffer.hpp"; SG="src/StatsSeriesGroup.cpp"; PO="src/ProgramOptions.cpp"
MUTS=[
("C18","quant-huh",SQ,'format("Huh %d != %d // %d") % i % (nbuffers - 1) % buffer_weight[i]','format("Huh %d != %d // %d") % i % (nbuffers - 1)',"V"),
("C18","quant-extra",SQ,'format("cl=%d, cm=%d, cu=%d")','format("cl=%d, cu=%d")',"V"),
("C18","quant-printf",SQ,'printf("%d buffers, each containing %d entries\\n",','printf("%d buffers, each containing %s entries\\n",',"V"),
("C18","quant-pct",SQ,'format("\\n    %.4g%%: ") % (quantile * 100)','format("\\n    %.4g%: ") % (quantile * 100)',"V"),
("C18","quant-pct2",SQ,'out << format("%.12g%%: %.8g")','out << format("%.12g%: %.8g")',"V"),
("C18","clock-split",CK,'% clock_rate % truncated_mean.conf95() \n','% clock_rate\n',"V"),
("C18","clock-branch",CK,'        // dummy','',"V"),
("C18","log-level",LL,'format("%d calls to slow wouldDebug path")','format("calls to slow wouldDebug path")',"V"),
("C18","join-strerror",PT,'format("pthread_kill failed: %s") % strerror(rc)','format("pthread_kill failed") % strerror(rc)',"V"),
("C18","hexchar",SU,'format("bad hex character %d\\n") % static_cast<unsigned>(v)','format("bad hex character %d (%c)\\n") % static_cast<unsigned>(v)',"V"),
("C18","positional",SU,'format("can\'t convert string to hex, not an even number of %d digits") % n','format("can\'t convert string to hex, not an even number of %1% digits (%2%)") % n',"V"),
("C18","buf-debug",BB,'boost::format("resizing bytebuffer %p from %d to %d")','boost::format("resizing bytebuffer %p to %d")',"V"),
("C18","snprintf",SG,'snprintf(buf,20,"%d",(int)stats.size());','snprintf(buf,20,"%d",stats.size());',"V"),
("C18","snprintf-s",SG,'snprintf(buf,20,"%d",(int)stats.size());','snprintf(buf,20,"%s",(const char *)(long)stats.size());',"Q"),
("C18","usage",PO,'boost::format("Usage: %s [options] %s\\n") % in_argv0 % extra_help','boost::format("Usage: %s [options] " + extra_help + "\\n") % in_argv0',"V"),
("C18","cond-args",SU,'    FATAL_ERROR(format("bad hex character %d\\n") % static_cast<unsigned>(v));','    boost::format f("bad hex character %d%s\\n");\n    f % static_cast<unsigned>(v);\n    if (v == 0) { f % " (NUL)"; }\n    FATAL_ERROR(f);',"V"),
# behaviour kept
("C18","cond-args-q",SU,'    FATAL_ERROR(format("bad hex character %d\\n") % static_cast<unsigned>(v));','    boost::format f("bad hex character %d%s\\n");\n    f % static_cast<unsigned>(v);\n    if (v == 0) { f % " (NUL)"; } else { f % ""; }\n    FATAL_ERROR(f);',"Q"),
("C18","ternary-q",SU,'format("bad hex character %d\\n") % static_cast<unsigned>(v)','format(v == 0 ? "bad hex character NUL %d\\n" : "bad hex character %d\\n") % static_cast<unsigned>(v)',"Q"),
("C18","positional-q",SU,'format("can\'t convert string to hex, not an even number of %d digits") % n','format("can\'t convert string to hex, not an even number of %1% digits") % n',"Q"),
("C18","helper-q",SM,['    INVARIANT(ret == 0, boost::format("pthread_mutex_lock failed: %s")\n','    INVARIANT(ret == 0, boost::format("pthread_mutex_unlock failed: %s")\n'],['    INVARIANT(ret == 0, boost::format("%s failed: %s") % "pthread_mutex_lock"\n','    INVARIANT(ret == 0, boost::format("%s failed: %s") % "pthread_mutex_unlock"\n'],"Q"),
("C18","str-q",SU,'    FATAL_ERROR(format("bad hex character %d\\n") % static_cast<unsigned>(v));','    const string msg = str(format("bad hex character %d\\n") % static_cast<unsigned>(v));\n    FATAL_ERROR(msg);',"Q"),
("C18","const-q",PT,'INVARIANT(rc != EINVAL, format("pthread_kill failed: %s") % strerror(rc));','static const char kill_failed[] = "pthread_kill failed: %s";\n    INVARIANT(rc != EINVAL, format(kill_failed) % strerror(rc));',"Q"),
("C18","mkfmt-q",PT,['INVARIANT(rc != EINVAL, format("pthread_kill failed: %s") % strerror(rc));','int PThreadMisc::getNCpus(bool unknown_ok) {\n'],['INVARIANT(rc != EINVAL, failedMessage("pthread_kill", rc));','namespace {\n    boost::format failedMessage(const char *what, int err) {\n	return boost::format("%s failed: %s") % what % strerror(err);\n    }\n}\nint PThreadMisc::getNCpus(bool unknown_ok) {\n'],"Q"),
("C18","snprintf-q",SG,'snprintf(buf,20,"%d",(int)stats.size());','snprintf(buf, sizeof(buf), "%lu", static_cast<unsigned long>(stats.size()));',"Q"),
("C18","loop-args-q",SU,'    return boost::str(boost::format("%d.%d.%d.%d")','    return boost::str(boost::format("%1%.%2%.%3%.%4%")',"Q"),
]
MUTS=[m for m in MUTS if m[1]!="clock-branch"]
