// Positive and negative controls for C07: small containers whose operations do (Bad) or do not (Good) read their
// argument after they changed what it may refer to.
#include <vector>
namespace wit {
    struct AElem { AElem(); AElem(const AElem &); ~AElem(); AElem &operator=(const AElem &); bool operator==(const AElem &) const; long pad[3]; };

    template<class T> class BadBag {
    public:
        BadBag() : n(0), cap(1), elems(new T[1]) { }
        ~BadBag() { delete [] elems; }
        void grow(const T &v) { T *bigger = new T[cap * 2]; for (unsigned i = 0; i < n; ++i) { bigger[i] = elems[i]; } delete [] elems; elems = bigger; cap *= 2; elems[n++] = v; }
        void shift(const T &v) { for (unsigned i = n - 1; i > 0; --i) { elems[i] = elems[i - 1]; } elems[0] = v; }
        bool wipe(const T &v) { elems[0] = T(); return v == elems[1]; }
        void twice(const T &v) { vec.push_back(v); vec.push_back(v); }
        void by_helper(const T &v) { forget(); elems[0] = v; }
        void join(const BadBag &o) { vec.clear(); vec.insert(vec.end(), o.vec.begin(), o.vec.end()); }
    private:
        BadBag(const BadBag &);
        BadBag &operator=(const BadBag &);
        void forget() { vec.clear(); n = 0; }
        unsigned n, cap;
        T *elems;
        std::vector<T> vec;
    };

    template<class T> class GoodBag {
    public:
        GoodBag() : n(0), cap(1), elems(new T[1]) { }
        ~GoodBag() { delete [] elems; }
        void grow(const T &v) { T *bigger = new T[cap * 2]; for (unsigned i = 0; i < n; ++i) { bigger[i] = elems[i]; } bigger[n++] = v; delete [] elems; elems = bigger; cap *= 2; }
        void shift(const T &v) { T copy(v); for (unsigned i = n - 1; i > 0; --i) { elems[i] = elems[i - 1]; } elems[0] = copy; }
        bool wipe(const T &v) { bool r = v == elems[1]; elems[0] = T(); return r; }
        void twice(const T &v) { T a(v); vec.push_back(a); vec.push_back(a); }
        void by_helper(const T &v) { T a(v); forget(); elems[0] = a; }
        void join(const GoodBag &o) { if (this == &o) { return; } vec.clear(); vec.insert(vec.end(), o.vec.begin(), o.vec.end()); }
        void count(const T &v) { ++n; vec.push_back(v); }
    private:
        GoodBag(const GoodBag &);
        GoodBag &operator=(const GoodBag &);
        void forget() { vec.clear(); n = 0; }
        unsigned n, cap;
        T *elems;
        std::vector<T> vec;
    };

    int use_bags(const AElem &e) {
        BadBag<AElem> b, b2;
        GoodBag<AElem> g, g2;
        b.grow(e); b.shift(e); b.wipe(e); b.twice(e); b.by_helper(e); b.join(b2);
        g.grow(e); g.shift(e); g.wipe(e); g.twice(e); g.by_helper(e); g.join(g2); g.count(e);
        return 0;
    }
}
