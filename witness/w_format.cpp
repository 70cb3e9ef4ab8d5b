// Positive controls for the format rule: every bad_ function must be reported, good_ ones must not.
#include <stdio.h>
#include <string>
#include <boost/format.hpp>
#include <Lintel/AssertBoost.hpp>

namespace wit {
    void bad_few(int a) { INVARIANT(a > 3, boost::format("%d of %d") % a); }
    std::string bad_many(int a) { return (boost::format("only %s") % a % a).str(); }
    std::string bad_named(int a, int b) { boost::format f("%1% and %3%"); f % a; f % b; return f.str(); }
    std::string bad_string(int a) { return (boost::format("%d 100% done") % a).str(); }
    std::string bad_path(int a) { boost::format f("%d %d"); f % a; if (a > 3) { f % a; } return boost::str(f); }
    void bad_printf(long a) { printf("%d %s\n", a); }

    std::string bad_text(const std::string &name, int a) { return (boost::format("value of " + name + " is %d") % a).str(); }

    boost::format made(int a) { return boost::format("%d %s") % a; }
    std::string good_named(int a, int b) { boost::format f("%1% and %2% and %1%"); f % a; f % b; return f.str(); }
    std::string good_text(int a) { std::string f("value is "); f += a > 3 ? "big %d" : "small %d"; return (boost::format(f) % a).str(); }
    std::string good_bar(int a) { boost::format f(a > 3 ? "%|08x| %%" : "%5.3f"); f % a; return str(f); }
    std::string good_loop(int a) { boost::format f("%d %d %d"); for (int i = 0; i < 3; ++i) { f % a; } return str(f); }
    boost::format &more(boost::format &f, int a) { return f % a; }
    std::string good_helper(int a) { boost::format f("%d %d"); return str(more(f, a) % a); }
    void good_printf(long a) { printf("%ld %s\n", a, "x"); }
}
