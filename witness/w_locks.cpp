// Clients of every header-only lock class, so that the inline code is analysed,
// and known-bad functions (bad_*) that the analysis must report on every run.
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>

extern void wit_work();            // may throw
extern bool wit_cond();

void w_simple_scoped(SimpleMutex &m) { SimpleScopedLock l(m); wit_work(); }
void w_scoped(PThreadScopedOnlyMutex &m) { PThreadScopedLock l(m); wit_work(); }
void w_scoped_ordered(PThreadScopedOnlyMutex &m, LockOrderingGroup &g, double lev) { PThreadScopedLock l(m, g, lev); wit_work(); }
void w_scoped_unlock(PThreadScopedOnlyMutex &m) {
    PThreadScopedLock l(m);
    wit_work();
    { PThreadScopedUnlock u(l); wit_work(); }
    wit_work();
}
void w_scoped_unlock_ordered(PThreadScopedOnlyMutex &m, LockOrderingGroup &g, double lev) {
    PThreadScopedLock l(m, g, lev);
    wit_work();
    { PThreadScopedUnlock u(l); wit_work(); }
    wit_work();
}
void w_auto(PThreadMutex &m) { PThreadAutoLocker l(m); wit_work(); }
void w_manual(PThreadMutex &m) { m.lock(); m.unlock(); }
bool w_try(PThreadMutex &m) { if (m.trylock()) { m.unlock(); return true; } return false; }
bool w_timed(PThreadMutex &m, const struct timespec &t) { if (m.timedLock(t)) { m.unlock(); return true; } return false; }
void w_cond(PThreadMutex &m, PThreadCond &c) {
    PThreadScopedLock l(m);
    while (!wit_cond()) c.wait(m);
    c.signal();
    c.broadcast();
}
bool w_cond_timed(PThreadMutex &m, PThreadCond &c, double s, const struct timespec &t) {
    PThreadScopedLock l(m);
    if (c.timedWait(m, s)) return true;
    return c.timedWaitAbs(m, t);
}
void w_mutex_make() { PThreadMutex m; PThreadScopedOnlyMutex n; SimpleMutex s; PThreadCond c; wit_work(); }

// --- positive controls ------------------------------------------------------
void bad_early_return(SimpleMutex &m) { m.lock(); if (wit_cond()) return; m.unlock(); }
void bad_exception(SimpleMutex &m) { m.lock(); wit_work(); m.unlock(); }
void bad_double_lock(SimpleMutex &m) { SimpleScopedLock a(m); m.lock(); m.unlock(); }
void bad_double_unlock(SimpleMutex &m) { SimpleScopedLock a(m); m.unlock(); }
