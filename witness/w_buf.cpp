// Every operation of the byte buffer has code through w_all.cpp. Positive controls: Bad classes must be reported, Good ones must not.
#include <Lintel/ByteBuffer.hpp>
namespace wit {
    typedef lintel::NoCopyByteBuffer Raw;
    struct BadBuffer {
        boost::shared_ptr<Raw> rep; bool allow_copy_on_write;
        BadBuffer() : rep(new Raw()), allow_copy_on_write(false) { }
    private:
        void uniq() { if (!rep.unique()) { if (rep->bufferSize() > 0) SINVARIANT(allow_copy_on_write); copy(); } }
        void copy() { boost::shared_ptr<Raw> n(new Raw()); n->resizeBuffer(rep->readAvailable()); memcpy(n->writeStart(rep->readAvailable()), rep->readStart(), rep->readAvailable()); rep = n; }
    public:
        void extend(size_t n); void consume(size_t n); void unextend(size_t n); void poke(); void shift(); void resizeBuffer(size_t n);
        void assign(const BadBuffer &b); void forceUnique(); void append(const char *p, size_t n); void replace(size_t o, const void *p, size_t n); void writeStart(size_t n); void grow(size_t n); void fill(std::istream &in, size_t n); void late(size_t n);
    };
    void BadBuffer::extend(size_t n) { rep->extend(n); }
    void BadBuffer::consume(size_t n) { if (n > 7) uniq(); rep->consume(n); }
    void BadBuffer::unextend(size_t n) { Raw *r = rep.get(); uniq(); r->unextend(n); }
    void BadBuffer::poke() { const_cast<uint8_t *>(rep->readStart())[0] = 1; }
    void BadBuffer::shift() { if (!rep.unique()) copy(); rep->shift(); }
    void BadBuffer::resizeBuffer(size_t n) {
        if (!rep.unique()) { if (rep->bufferSize() > 0) SINVARIANT(allow_copy_on_write); boost::shared_ptr<Raw> b(new Raw()); b->resizeBuffer(n); memcpy(b->writeStart(rep->readAvailable()), rep->readStart(), n); rep = b; }
        rep->resizeBuffer(n);
    }
    void BadBuffer::assign(const BadBuffer &b) { rep = b.rep; }
    void BadBuffer::forceUnique() { if (!rep.unique() && allow_copy_on_write) copy(); }
    void BadBuffer::append(const char *p, size_t n) { uniq(); memcpy(rep->writeStart(n), p, n + 1); }
    void BadBuffer::replace(size_t o, const void *p, size_t n) { SINVARIANT(o <= rep->readAvailable() && n <= rep->readAvailable()); uniq(); memcpy(rep->writeableReadStart() + o, p, n); }
    void BadBuffer::writeStart(size_t n) { if (!rep.unique()) { if (rep->bufferSize() > 64) SINVARIANT(allow_copy_on_write); copy(); } rep->writeStart(n); }
    void BadBuffer::grow(size_t n) { boost::shared_ptr<Raw> k(rep); uniq(); k->resizeBuffer(n); }
    void BadBuffer::fill(std::istream &in, size_t n) { uniq(); in.read((char *)rep->writeStart(0), n); rep->extend(in.gcount()); }
    void BadBuffer::late(size_t n) { uniq(); SINVARIANT(n + 4 <= rep->readAvailable()); memset(rep->writeableReadStart() + 4, 0, n); }
    struct GoodBuffer {
        boost::shared_ptr<Raw> rep; bool allow_copy_on_write;
        GoodBuffer() : rep(new Raw()), allow_copy_on_write(false) { }
        Raw &own();
        void extend(size_t n); void consume(size_t n); void shift(); void forceUnique(); void append(const char *p, size_t n); void replace(size_t o, const void *p, size_t n); void reset(); void detach(); void swap(GoodBuffer &b);
        GoodBuffer &operator=(const GoodBuffer &b);
    };
    inline Raw &GoodBuffer::own() {
        if (rep.use_count() == 1) return *rep;
        if (!allow_copy_on_write) SINVARIANT(rep->bufferSize() == 0);
        const Raw *old = rep.get();
        size_t n = old->readAvailable();
        Raw *r = new Raw();
        boost::shared_ptr<Raw> fresh(r);
        fresh->resizeBuffer(n);
        memcpy(fresh->writeStart(n), old->readStart(), n);
        rep.swap(fresh);
        return *rep;
    }
    void GoodBuffer::extend(size_t n) { own().extend(n); }
    void GoodBuffer::consume(size_t n) { Raw &r = own(); if (n > 3) r.shift(); r.consume(n); }
    void GoodBuffer::shift() { if (!rep.unique()) { SINVARIANT(allow_copy_on_write); forceUnique(); rep->shift(); } else rep->shift(); }
    void GoodBuffer::forceUnique() {
        if (rep.unique()) return;
        boost::shared_ptr<Raw> fresh(new Raw());
        fresh->resizeBuffer(rep->readAvailable());
        memcpy(fresh->writeStart(rep->readAvailable()), rep->readStart(), rep->readAvailable());
        rep = fresh;
    }
    void GoodBuffer::append(const char *p, size_t n) { Raw &r = own(); if (r.writeAvailable() < n) r.resizeBuffer(r.bufferSize() + n - r.writeAvailable()); uint8_t *to = r.writeStart(n); memcpy(to, p, n); }
    void GoodBuffer::replace(size_t o, const void *p, size_t n) { SINVARIANT(o <= rep->readAvailable() && n <= rep->readAvailable() - o); memmove(own().writeableReadStart() + o, p, n); }
    void GoodBuffer::reset() { if (!rep.unique()) { SINVARIANT(allow_copy_on_write || rep->bufferSize() == 0); rep.reset(new Raw()); } else rep->reset(); }
    void GoodBuffer::detach() { boost::shared_ptr<Raw> n(new Raw()); rep.swap(n); }
    void GoodBuffer::swap(GoodBuffer &b) { rep.swap(b.rep); std::swap(allow_copy_on_write, b.allow_copy_on_write); }
    GoodBuffer &GoodBuffer::operator=(const GoodBuffer &b) { boost::shared_ptr<Raw> k(b.rep); rep.swap(k); allow_copy_on_write = b.allow_copy_on_write; return *this; }

    struct BadStore {
        uint8_t *byte_data; size_t data_size, front, back;
        BadStore() : byte_data(NULL), data_size(0), front(0), back(0) { }
        size_t readAvailable() const; bool empty() const; void extend(size_t n); void consume(size_t n); void resizeBuffer(size_t n); void shift(); void purge(); uint8_t *writeStart(size_t n);
    };
    size_t BadStore::readAvailable() const { return data_size - front; }
    bool BadStore::empty() const { return back == 0; }
    void BadStore::extend(size_t n) { SINVARIANT(n <= data_size); back += n; }
    void BadStore::consume(size_t n) { front += n; if (front == back) back = 0; }
    void BadStore::resizeBuffer(size_t n) { uint8_t *d = new uint8_t[n]; memcpy(d, byte_data + front, back - front); delete [] byte_data; byte_data = d; data_size = n; back -= front; front = 0; }
    void BadStore::shift() { if (front > 0) { memmove(byte_data, byte_data + front, back); back -= front; front = 0; } }
    void BadStore::purge() { byte_data = NULL; data_size = front = back = 0; }
    uint8_t *BadStore::writeStart(size_t n) { SINVARIANT(n <= data_size - back); back += n; return byte_data + back; }
    struct GoodStore {
        uint8_t *byte_data; size_t data_size, front, back;
        GoodStore() : byte_data(NULL), data_size(0), front(0), back(0) { }
        size_t readAvailable() const; bool empty() const; void extend(size_t n); void consume(size_t n); void resizeBuffer(size_t n); void shift(); void purge(); void reset(); uint8_t *writeStart(size_t n); void unextend(size_t n);
    };
    size_t GoodStore::readAvailable() const { size_t n = back; n -= front; return n; }
    bool GoodStore::empty() const { return readAvailable() == 0; }
    void GoodStore::extend(size_t n) { size_t room = data_size - back; if (room < n) FATAL_ERROR("no room"); back = back + n; }
    void GoodStore::consume(size_t n) { size_t f = front; f += n; front = f; }
    void GoodStore::unextend(size_t n) { SINVARIANT(!(n > back - front)); back -= n; }
    void GoodStore::resizeBuffer(size_t n) {
        if (n == data_size && byte_data != NULL) { shift(); return; }
        size_t have = readAvailable();
        SINVARIANT(n >= have);
        uint8_t *old = byte_data, *d = new uint8_t[n];
        if (have > 0) memcpy(d, old + front, have);
        byte_data = d; data_size = n; front = 0; back = have;
        delete [] old;
    }
    void GoodStore::shift() { if (front == 0) return; size_t n = readAvailable(); if (n != 0) memmove(byte_data, byte_data + front, n); front = 0; back = n; }
    void GoodStore::purge() { uint8_t *p = byte_data; byte_data = 0; reset(); data_size = 0; delete [] p; }
    inline void GoodStore::reset() { back = 0; front = 0; }
    uint8_t *GoodStore::writeStart(size_t n) { extend(n); return byte_data + (back - n); }
    void construct() { BadBuffer a; GoodBuffer b; BadStore c; GoodStore d; }
}
