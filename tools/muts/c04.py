P='include/Lintel/PThread.hpp.in'
MUTS=[
("C04","lock_ignore",'src/SimpleMutex.cpp','''    int ret = pthread_mutex_lock(&m);
    INVARIANT(ret == 0,''','''    int ret = pthread_mutex_lock(&m);
    INVARIANT(ret == 0 || ret == EDEADLK,''','V'),
("C04","setguard",'src/PThread.cpp','''pthread_attr_setguardsize(&attr, size);
    INVARIANT(ret == 0,''','''pthread_attr_setguardsize(&attr, size);
    INVARIANT(ret != ENOMEM,''','V'),
("C04","lseek",'include/Lintel/Posix.hpp','INVARIANT(status != -1, boost::format("lseek','INVARIANT(status != 0, boost::format("lseek','V'),
("C04","stat",'include/Lintel/FileUtil.hpp','statbuf) == 0,','statbuf) <= 0,','V'),
("C04","fseek",'src/unstable/ProcessStatistics.cpp','CHECKED(fseek(fp, 0, SEEK_SET)==0,','fseek(fp, 0, SEEK_SET); CHECKED(fp!=0,','V'),
("C04","ifstream",'src/PThread.cpp','INVARIANT(infile.good(), "unable to open /proc/cpuinfo");','','V'),
("C04","gethostname",'src/StringUtil.cpp','INVARIANT(rc == 0, "gethostname failed");','','V'),
("C04","scanf6",'src/unstable/ProcessStatistics.cpp','&res.dt) == 7','&res.dt) != EOF','V'),
("C04","readn",'include/Lintel/Posix.hpp','INVARIANT(nb != -1, boost::format("readN(%d): %s") \n\t\t      % fd % strerror(errno));','','V'),
("C04","helper",'src/SimpleMutex.cpp','''void SimpleMutex::lock() {
    int ret = pthread_mutex_lock(&m);
''','''static int doLock(pthread_mutex_t *m) { int r = pthread_mutex_lock(m); (void)0; return r; }
void SimpleMutex::lock() {
    int ret = doLock(&m);
''','Q'),
("C04","helper_bad",'src/SimpleMutex.cpp','''void SimpleMutex::lock() {
    int ret = pthread_mutex_lock(&m);
    INVARIANT(ret == 0,''','''static int doLock(pthread_mutex_t *m) { int r = pthread_mutex_lock(m); (void)0; return r; }
void SimpleMutex::lock() {
    int ret = doLock(&m);
    INVARIANT(ret != EINVAL,''','V'),
("C04","switch",'src/SimpleMutex.cpp','''    int ret = pthread_mutex_lock(&m);
    INVARIANT(ret == 0,''','''    int ret = pthread_mutex_lock(&m);
    switch(ret) { case 0: return; case EDEADLK: FATAL_ERROR("deadlock"); default: break; }
    INVARIANT(ret == 0,''','Q'),
]
