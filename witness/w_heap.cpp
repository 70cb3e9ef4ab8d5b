// Positive controls for the heap ownership rule: each bad_ function and BadOwner member must be reported; good ones must not.
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <Lintel/AssertBoost.hpp>

namespace wit {
    int bad_leak(int x) {
        int *p = new int[x];
        memset(p, 0, x * sizeof(int));
        if (x > 3) return p[2];
        delete [] p;
        return 0;
    }
    int bad_throw(int x) {
        int *p = new int[x];
        memset(p, 0, x * sizeof(int));
        INVARIANT(p[0] == x, "bad");
        delete [] p;
        return 0;
    }
    void bad_twice(int x) {
        char *p = static_cast<char *>(malloc(x));
        if (x > 3) free(p);
        free(p);
    }
    int bad_use(int x) {
        int *p = new int(x);
        delete p;
        return *p;
    }
    void bad_form(int x) {
        int *p = new int[x];
        memset(p, 0, x * sizeof(int));
        delete p;
    }
    struct BadOwner {
        int *a, *b; int n;
        explicit BadOwner(int x);
        ~BadOwner();
        void reset(int x);
        void reset2(int x);
    };
    BadOwner::BadOwner(int x) : a(new int[x]), b(NULL), n(x) { INVARIANT(x > 3, "small"); b = new int[x]; }
    BadOwner::~BadOwner() { if (n > 3) delete [] a; delete [] b; }
    void BadOwner::reset(int x) { a = new int[x]; }
    void BadOwner::reset2(int x) { delete [] b; INVARIANT(x > 0, "small"); b = new int[x]; }

    struct GoodOwner {
        int *a, *b; int n;
        explicit GoodOwner(int x);
        ~GoodOwner();
        void reset(int x);
        void lazy(int x);
        void exchange(GoodOwner &o) { int *t = a; a = o.a; o.a = t; }
    };
    GoodOwner::GoodOwner(int x) : a(NULL), b(NULL), n(x) { INVARIANT(x > 3, "small"); a = new int[x]; b = new int[x]; }
    GoodOwner::~GoodOwner() { delete [] a; if (b != NULL) { delete [] b; } }
    void GoodOwner::reset(int x) { int *na = new int[x]; memcpy(na, a, n * sizeof(int)); delete [] a; a = na; n = x; }
    void GoodOwner::lazy(int x) { if (b == NULL) { b = new int[x]; } b[0] = 3; }
    void use_good(GoodOwner &a, GoodOwner &b) { a.exchange(b); GoodOwner c(4); c.lazy(3); a.exchange(c); }

    struct BadElems {
        std::vector<int *> v; int **w; int n;
        explicit BadElems(int x);
        ~BadElems();
        void add(int x);
        void drop();
        void part();
    };
    void BadElems::part() { for (int i = 1; i < n; ++i) { delete w[i]; w[i] = NULL; } }
    BadElems::BadElems(int x) : w(new int *[x]), n(x) { }
    BadElems::~BadElems() { for (int i = 0; i < n; ++i) { delete w[i]; } delete [] w; }
    void BadElems::add(int x) { v.push_back(new int(x)); w[x] = new int(x); }
    void BadElems::drop() { v.clear(); }

    struct GoodElems {
        std::vector<int *> v;
        GoodElems() { }
        ~GoodElems();
        void add(int x);
        void drop();
    private:
        void wipe() { v.clear(); }
    };
    GoodElems::~GoodElems() { drop(); }
    void GoodElems::add(int x) { int *p = new int(x); v.push_back(p); }
    void GoodElems::drop() { for (std::vector<int *>::iterator i = v.begin(); i != v.end(); ++i) { delete *i; } wipe(); }
    void use_elems(BadElems &b, GoodElems &g) { b.add(3); g.add(3); b.drop(); b.part(); g.drop(); BadElems c(3); GoodElems d; d.add(3); }
}
