// Clients of the random generators and hash functions, and positive controls for the determinism rules.
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include <vector>
#include <Lintel/HashFns.hpp>
#include <Lintel/MarsagliaRandom.hpp>
#include <Lintel/MersenneTwisterRandom.hpp>
namespace wit {
    template<class R> void draw(R &r, uint32_t s) {
        R a(s);
        a = r;
        r.init(s); r.randInt(); r.randInt(s); r.randIntUnbiased(s); r.randLongLong(); r.randDouble(); r.randDoubleOpen(); r.randDoubleClosed(); r.randDoubleOpen53();
        r.randDoubleClosed53(); r.randBool(); r.randBoolFast();
    }
    void draw_all(MersenneTwisterRandom &a, lintel::MarsagliaRNGMicro &b, lintel::RandomTempl<lintel::Marsaglia<4096> > &c,
                  lintel::RandomTempl<lintel::Marsaglia<8> > &d, std::vector<uint32_t> &v, uint32_t s) {
        draw(a, s); draw(b, s); draw(c, s); draw(d, s);
        MersenneTwisterRandom e(v);
        e.initArray(v);
        MT_random_shuffle(v.begin(), v.end(), a);
    }
    uint32_t hash_all(const std::string &s, const char *p, uint32_t a, uint64_t b, const std::pair<int, int> &q, const boost::shared_ptr<int> &i) {
        lintel::PointerHash<int> ph;
        lintel::SharedPointerHash<int> sh;
        return lintel::hash(s) ^ lintel::hashType(p) ^ lintel::hash(a) ^ lintel::hash(b) ^ lintel::hash((uint8_t)a) ^ lintel::hash((uint16_t)a)
            ^ lintel::BobJenkinsHashMix3(a, a, a) ^ ph(i.get()) ^ sh(i) ^ lintel::hashBytes(p, 1, a);
    }

    // every function of these classes is a control
    static uint32_t carried;
    struct BadKeep { uint32_t s, k; BadKeep(uint32_t x) : s(x), k(0) { } void init(uint32_t x); uint32_t randInt(); };
    void BadKeep::init(uint32_t x) { s = x; }
    uint32_t BadKeep::randInt() { ++k; return s += k; }
    struct BadArray { uint32_t a[8], n; BadArray(uint32_t x) { init(x); } void init(uint32_t x); uint32_t randInt(); };
    void BadArray::init(uint32_t x) { for (n = 0; n < 7; ++n) { a[n] = x; } }
    uint32_t BadArray::randInt() { n = (n + 1) & 7; return a[n] += n; }
    struct BadGlobal { uint32_t s; BadGlobal(uint32_t x) : s(x) { } void init(uint32_t x); uint32_t randInt(); };
    void BadGlobal::init(uint32_t x) { s = x; }
    uint32_t BadGlobal::randInt() { carried += s; return carried; }
    struct BadEnv { uint32_t s; BadEnv(uint32_t x) : s(x) { } void init(uint32_t x); uint32_t randInt(); };
    void BadEnv::init(uint32_t x) { s = x ? x : (uint32_t)time(NULL); }
    uint32_t BadEnv::randInt() { return s *= 5; }
    struct BadAddr { uint32_t s; BadAddr(uint32_t x) : s(x) { } void init(uint32_t x); uint32_t randInt(); };
    void BadAddr::init(uint32_t x) { s = x ^ (uint32_t)(uintptr_t)this; }
    uint32_t BadAddr::randInt() { return s *= 5; }
    struct BadPrior { uint32_t s; BadPrior(uint32_t x) : s(x) { } void init(uint32_t x); uint32_t randInt(); };
    void BadPrior::init(uint32_t x) { s = s * 3 + x; }
    uint32_t BadPrior::randInt() { return s *= 5; }
    struct BadCtor { uint32_t s; BadCtor(uint32_t x); void init(uint32_t x); uint32_t randInt(); };
    BadCtor::BadCtor(uint32_t x) { init(x & 0xffff); }
    void BadCtor::init(uint32_t x) { s = x; }
    uint32_t BadCtor::randInt() { return s *= 5; }
    struct BadRange { uint32_t s; BadRange(uint32_t x) { init(x); } void init(uint32_t x); uint32_t randInt(); uint32_t randInt(uint32_t m); double randDoubleOpen(); double randDoubleClosed(); };
    void BadRange::init(uint32_t x) { s = x; }
    uint32_t BadRange::randInt() { return s *= 5; }
    uint32_t BadRange::randInt(uint32_t m) { return randInt() % (m + 1); }
    double BadRange::randDoubleOpen() { return randInt() / 4294967295.0; }
    double BadRange::randDoubleClosed() { return randInt() / 4294967294.0; }
    struct BadHash { uint32_t operator()(uint32_t x) const; };
    uint32_t BadHash::operator()(uint32_t x) const { return carried ^ x; }

    struct GoodRand { uint32_t a[8], n, k; GoodRand(uint32_t x) { init(x); } void init(uint32_t x); uint32_t randInt(); uint32_t randInt(uint32_t m); double randDoubleOpen(); double randDoubleClosed(); };
    void GoodRand::init(uint32_t x) { a[0] = x; for (n = 1; n < 8; ++n) { a[n] = a[n - 1] * 7; } if (x > 4) { k = 1; } else { k = 2; } }
    uint32_t GoodRand::randInt() { n = (n + 1) & 7; return a[n] += n + k; }
    uint32_t GoodRand::randInt(uint32_t m) { for (;;) { uint32_t r = randInt() & 0xffffff; if (r < m) { return r; } } }
    double GoodRand::randDoubleOpen() { return randInt() / 4294967296.0; }
    double GoodRand::randDoubleClosed() { return randInt() / 4294967295.0; }
    void controls(uint32_t x) {
        BadKeep a(x); a.init(x); a.randInt(); BadArray b(x); b.init(x); b.randInt(); BadGlobal c(x); c.init(x); c.randInt(); BadEnv d(x); d.init(x); d.randInt();
        BadAddr e(x); e.init(x); e.randInt(); BadPrior f(x); f.init(x); f.randInt(); BadCtor g(x); g.init(x); g.randInt(); BadRange h(x); h.randInt(x); h.randDoubleOpen(); h.randDoubleClosed();
        BadHash i; i(x); GoodRand j(x); j.randInt(x); j.randDoubleOpen(); j.randDoubleClosed();
    }
}
