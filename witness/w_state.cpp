// Positive controls for the state rules; Good classes must not be reported.
#include <vector>
namespace wit {
    struct BadReset { int a, b; std::vector<int> v; BadReset() : a(0), b(0) { } void add(int x); void reset(); };
    void BadReset::add(int x) { a += x; ++b; v.push_back(x); }
    void BadReset::reset() { a = 0; if (a > b) { b = 0; } }
    struct BadValue { double lo; BadValue() : lo(1e300) { } void add(double x); void reset(); };
    void BadValue::add(double x) { if (x < lo) { lo = x; } }
    void BadValue::reset() { lo = 0; }
    struct BadCopy { int a, b; BadCopy() : a(0), b(0) { } BadCopy(const BadCopy &f); };
    BadCopy::BadCopy(const BadCopy &f) : a(f.a), b(f.a) { }
    struct BadAssign { int a; std::vector<int> v; BadAssign() : a(0) { } BadAssign &operator=(const BadAssign &f); };
    BadAssign &BadAssign::operator=(const BadAssign &f) { v = f.v; if (!v.empty()) { a = f.a; } return *this; }
    struct BadMerge { double s, q; BadMerge() : s(0), q(0) { } void add(double v); void add(const BadMerge &o); };
    void BadMerge::add(double v) { s += v; q += v * v; }
    void BadMerge::add(const BadMerge &o) { s += o.q; q += o.q; }

    struct GoodReset { int a, b, *p; unsigned n; std::vector<int> v; GoodReset() : p(new int[4]), n(4) { reset(); } ~GoodReset() { delete [] p; } void add(int x); void reset(); int get() const { return a; } };
    void GoodReset::add(int x) { a += x; ++b; v.push_back(x); p[x % 4]++; }
    void GoodReset::reset() { a = b = 0; v.clear(); for (unsigned i = 0; i < n; ++i) { p[i] = 0; } }
    struct GoodCopy { int a; std::vector<int> v; GoodCopy() : a(0) { } GoodCopy(const GoodCopy &f) : a(f.a), v(f.v) { } GoodCopy &operator=(const GoodCopy &f); };
    GoodCopy &GoodCopy::operator=(const GoodCopy &f) { if (this != &f) { a = f.a; v = f.v; } return *this; }
    struct GoodMerge { double s, m; GoodMerge() : s(0), m(0) { } void add(double v); void add(const GoodMerge &o); };
    void GoodMerge::add(double v) { s += v; if (v > m) { m = v; } }
    void GoodMerge::add(const GoodMerge &o) { if (o.m > m) { m = o.m; } s += o.s; }
    void use_state() {
        BadReset a; a.add(1); a.reset(); BadValue b; b.add(1); b.reset(); BadCopy c, c2(c); BadAssign d, d2; d = d2; BadMerge e; e.add(1); e.add(e);
        GoodReset f; f.add(1); f.reset(); GoodCopy g, g2(g); g = g2; GoodMerge h; h.add(1); h.add(h); (void)f.get();
    }
}
