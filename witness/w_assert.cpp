// The assertion macros as a user writes them: one function per macro, and deliberately broken copies as positive controls.
#include <string>
#include <vector>
#include <boost/format.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/AssertException.hpp>
#include <Lintel/TestUtil.hpp>

namespace wit {
    bool cond();
    std::string msg();
    const boost::format &fmt();
    int num();
    void body();

    void m_invariant_msg() { INVARIANT(cond(), msg()); }
    void m_invariant_fmt() { INVARIANT(cond(), fmt()); }
    void m_checked_msg() { CHECKED(cond(), msg()); }
    void m_sinvariant() { SINVARIANT(cond()); }
    void m_fatal_msg() { FATAL_ERROR(msg()); }
    void m_fatal_fmt() { FATAL_ERROR(fmt()); }
    void m_debug_msg() { DEBUG_INVARIANT(cond(), msg()); }
    void m_debugs() { DEBUG_SINVARIANT(cond()); }
    void x_plain() { AssertException(cond()); }
    void x_msg() { AssertExceptionMsg(cond(), ("%d", num())); }
    struct Sub : AssertExceptionT { Sub(const std::string &c, const std::string &m, const char *f, int l) : AssertExceptionT(c, m, f, l) { } };
    void x_sub() { SubtypeAssertException(Sub, cond()); }
    void t_msg1() { TEST_INVARIANT_MSG1(body(), "m"); }
    void t_msg3() { TEST_INVARIANT_MSG3(body(), "m", "n", "o"); }

    void bad_twice_msg() { if (!cond()) { INVARIANT(cond(), msg()); } }
    void bad_ignored_msg() { try { INVARIANT(cond(), msg()); } catch (std::exception &) { } }
    void bad_eager_msg() { std::string m(msg()); INVARIANT(cond(), m); }
    void bad_other_msg() { if (cond()) { } else { AssertBoostFail("other()", __FILE__, __LINE__, msg()); } }
    void bad_unguarded_msg() { if (cond()) { } else { AssertBoostFail("cond()", __FILE__, __LINE__, msg()); } }
    void bad_masked_msg() { if (cond()) { } else { try { AssertBoostFail("cond()", __FILE__, __LINE__, msg()); } catch (std::exception &e) { AssertBoostFail("cond()", __FILE__, __LINE__, boost::format("x")); } } }
}
