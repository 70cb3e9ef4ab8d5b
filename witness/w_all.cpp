// Instantiates the templates of the public headers with opaque element types, so that their code can be
// analysed for every element type: nothing is known about Elem's operations (declared, never defined).
// Compiled with -femit-all-decls, which also emits every inline function of the headers.
#include <string>
#include <vector>
#include <algorithm>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/AssertException.hpp>
#include <Lintel/AtomicCounter.hpp>
#include <Lintel/Base64.hpp>
#include <Lintel/BoyerMooreHorspool.hpp>
#include <Lintel/ByteBuffer.hpp>
#include <Lintel/Clock.hpp>
#include <Lintel/ConstantString.hpp>
#include <Lintel/Deque.hpp>
#include <Lintel/Double.hpp>
#include <Lintel/FileUtil.hpp>
#include <Lintel/HashFns.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashTable.hpp>
#include <Lintel/HashTupleStats.hpp>
#include <Lintel/HashUnique.hpp>
#include <Lintel/LeastSquares.hpp>
#include <Lintel/LintelLog.hpp>
#include <Lintel/LockOrderingGroup.hpp>
#include <Lintel/MarsagliaRandom.hpp>
#include <Lintel/MathSpecialFunctions.hpp>
#include <Lintel/Matrix.hpp>
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/PThread.hpp>
#include <Lintel/PointerUtil.hpp>
#include <Lintel/Posix.hpp>
#include <Lintel/PriorityQueue.hpp>
#include <Lintel/ProgramOptions.hpp>
#include <Lintel/RotatingHashMap.hpp>
#include <Lintel/STLUtility.hpp>
#include <Lintel/SimpleMutex.hpp>
#include <Lintel/Stats.hpp>
#include <Lintel/StatsCube.hpp>
#include <Lintel/StatsEMA.hpp>
#include <Lintel/StatsHistogram.hpp>
#include <Lintel/StatsMaker.hpp>
#include <Lintel/StatsQuantile.hpp>
#include <Lintel/StatsRW.hpp>
#include <Lintel/StatsSequence.hpp>
#include <Lintel/StatsSeries.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
#include <Lintel/StringUtil.hpp>
#include <Lintel/TestUtil.hpp>
#include <Lintel/Tuples.hpp>
#include <Lintel/XMLUtil.hpp>
#include <Lintel/unstable/InterpolationSearch.hpp>
#include <Lintel/unstable/ProcessStatistics.hpp>

namespace wit {
    // an element type about which nothing is known
    struct Elem {
        Elem();
        Elem(const Elem &);
        ~Elem();
        Elem &operator=(const Elem &);
        bool operator==(const Elem &) const;
        bool operator!=(const Elem &) const;
        bool operator<(const Elem &) const;
        long pad[4];
    };
    struct Less { Less(); bool operator()(const Elem &, const Elem &) const; int x; };
    struct ElemHash { ElemHash() : x(0) { } uint32_t operator()(const Elem &) const; int x; };
    struct ElemEq { ElemEq() : x(0) { } bool operator()(const Elem &, const Elem &) const; int x; };
    struct Derived : public Stats { };
    std::ostream &operator<<(std::ostream &, const Elem &);
    typedef boost::tuple<std::string, int> Key;
}

template class Deque<wit::Elem>;
template class PriorityQueue<wit::Elem, wit::Less>;
template class HashUnique<wit::Elem, wit::ElemHash, wit::ElemEq>;
template class RotatingHashMap<wit::Elem, wit::Elem, wit::ElemHash, wit::ElemEq>;
template class lintel::HashTupleStats<wit::Key, Stats>;
template class lintel::StatsCube<wit::Key, Stats>;
template class lintel::RandomTempl<lintel::MersenneTwisterInternal>;
template class lintel::ProgramOption<int>;
template class lintel::ProgramOption<std::string>;
template class lintel::ProgramOption<std::vector<int> >;

// HashTable::available() does not compile with any standard vector, so HashTable and HashMap cannot be
// instantiated as a whole; these clients use every other member.
namespace wit {
    typedef HashTable<Elem, ElemHash, ElemEq> HT;
    typedef HashMap<Elem, Elem, ElemHash, ElemEq> HM;
    void use_ht(HT &h, const HT &c, const Elem &e, Stats &s, double d) {
        HT a(d), b, copy(c);
        bool r;
        h.add(e); h.addOrReplace(e, r); h.lookup(e); c.lookup(e); h.randomlookup(1, 2); h.remove(e); h.remove(e, false);
        h.clear(); c.chainLengthStats(s); h.begin(); h.end(); h.find(e); c.begin(); c.end(); c.find(e); c.size(); c.empty();
        h = c; h.reserve(10); c.capacity(); c.memoryUsage(); h.dense(); h.unsafeGetRawDataVector(); c.verifyFreeListSize();
        HT::iterator i(h.begin()); i == h.end(); i != h.end(); ++i; i++; *i; i.operator->(); i.partialReset(); i.atStartOfChain();
        i.atEndOfChain(); i.reset(); i.getCurChain(); i = h.end(); h.erase(i);
        HT::const_iterator k(c.begin()); k == c.end(); k != c.end(); ++k; k++; *k; k.operator->(); k.partialReset(); k.atStartOfChain();
        k.atEndOfChain(); k.reset(); k.getCurChain();
    }
    void use_hm(HM &h, const HM &c, const Elem &e, Stats &s, double d) {
        HM a(d), b, copy(c);
        h.lookup(e); c.lookup(e); h[e]; h.addUnlessExist(e); c.cGet(e); c.dGet(e); c.exists(e); h.remove(e); h.remove(e, false);
        h.clear(); c.size(); c.capacity(); c.empty(); h.begin(); h.end(); c.begin(); c.end(); h.find(e); c.find(e); h.erase(h.begin());
        h = c; h.reserve(10); c.keys(); c.memoryUsage(); h.chainLengthStats(s); h.getHashTable();
    }
    typedef lintel::RandomTempl<lintel::Marsaglia<4096> > RM;
    typedef lintel::MarsagliaRNGMicro RMM;
    typedef lintel::RandomTempl<lintel::Marsaglia<8> > RM8;
    template<class R> void use_rng(R &r, uint32_t s) {
        R a(s);
        r.init(s); r.randInt(); r.randInt(s); r.randIntUnbiased(s); r.randLongLong(); r.randDouble(); r.randDoubleOpen(); r.randDoubleClosed(); r.randDoubleOpen53();
        r.randDoubleClosed53(); r.randBool(); r.randBoolFast();
    }
    void use_rm(RM &r, uint32_t s) { use_rng(r, s); }
    void use_rmm(RMM &r, uint32_t s) { use_rng(r, s); }
    void use_rm8(RM8 &r, uint32_t s) { use_rng(r, s); }

    Stats *w_downcast(Stats *s) { return lintel::safeDownCast<Derived>(s); }
    Stats *w_crosscast(Stats *s) { return lintel::safeCrossCast<Derived>(s); }
    boost::shared_ptr<Derived> w_sdowncast(boost::shared_ptr<Stats> s) { return lintel::safeDownCast<Derived>(s); }
    boost::shared_ptr<Derived> w_scrosscast(boost::shared_ptr<Stats> s) { return lintel::safeCrossCast<Derived>(s); }
    Elem &w_sref(boost::shared_ptr<Elem> &p) { return lintel::safeRef(p); }
    bool w_any(const lintel::tuples::AnyPair<int> &a, const lintel::tuples::AnyPair<int> &b) { lintel::tuples::AnyPair<int> c(3), d; d.set(4); return a == b || a < b || c < d; }
    Elem &w_ref(Elem *p) { return lintel::safeRef(p); }
    const Elem &w_cref(const Elem *p) { return lintel::safeRef(p); }
    bool w_range(const Elem *a, const Elem *b, const Elem *c, const Elem *d) {
        return lintel::iteratorRangeEqual(a, b, c, d);
    }
    const int *w_interp(const int *b, const int *e, const int &v) {
        return lintel::interpolationLowerBound<int>(b, e, v);
    }
    int32_t w_s2i_i(const std::string &s, int base) { return stringToInteger<int32_t>(s, base); }
    uint32_t w_s2i_u(const std::string &s, int base) { return stringToInteger<uint32_t>(s, base); }
    int64_t w_s2i_l(const std::string &s, int base) { return stringToInteger<int64_t>(s, base); }
    uint64_t w_s2i_ul(const std::string &s, int base) { return stringToInteger<uint64_t>(s, base); }
    const Key *w_bb(lintel::ByteBuffer &b) {
        b.extendAs<Key>(2);
        b.writeStartAs<Key>(3);
        return b.readStartAs<Key>();
    }
    uint32_t w_hash(const Key &k, const lintel::tuples::BitsetAnyTuple<Key> &a,
                    const lintel::tuples::BitsetAnyTuple<Key> &b) {
        lintel::tuples::TupleHash<Key> h;
        lintel::Hash<lintel::tuples::BitsetAnyTuple<Key> > ah;
        return h(k) + (a == b) + (a < b) + ah(a);
    }
}
