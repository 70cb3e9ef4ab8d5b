BB="include/Lintel/ByteBuffer.hpp"
MUTS=[
 ("C08","consume-no-uniq",BB,"	void consume(size_t amt) {\n	    uniqueify();\n","	void consume(size_t amt) {\n	    if (amt == 0) return;\n","V"),
 ("C08","uniq-threshold",BB,"max_size_cow_always_allowed = 0;","max_size_cow_always_allowed = 4096;","V"),
 ("C08","uniq-skip-empty",BB,"	    if (!rep.unique()) {\n                // check","	    if (!rep.unique() && !rep->empty()) {\n                // check","V"),
 ("C08","force-buffersize",BB,"new_buf->resizeBuffer(rep->readAvailable());","new_buf->resizeBuffer(rep->bufferSize());","Q"),
 ("C08","force-copy-fewer",BB,"		       rep->readStart(), rep->readAvailable());\n		rep = new_buf;","		       rep->readStart(), std::min(rep->readAvailable(), (size_t)65536));\n		rep = new_buf;","V"),
 ("C08","force-helper-q",BB,["	    if (!rep.unique()) {\n		boost::shared_ptr<NoCopyByteBuffer> new_buf(new NoCopyByteBuffer());\n		new_buf->resizeBuffer(rep->readAvailable());\n		memcpy(new_buf->writeStart(rep->readAvailable()), \n		       rep->readStart(), rep->readAvailable());\n		rep = new_buf;\n	    }","    private:\n        static const size_t max_size"],["	    if (rep.unique()) {\n	        return;\n	    }\n	    privateCopy();\n","    private:\n	void privateCopy() {\n		const size_t amount = rep->readAvailable();\n	    boost::shared_ptr<NoCopyByteBuffer> new_buf(new NoCopyByteBuffer());\n		new_buf->resizeBuffer(amount);\n		uint8_t *to = new_buf->writeStart(amount);\n	memcpy(to, rep->readStart(), amount);\n		rep.swap(new_buf);\n	}\n        static const size_t max_size"],"Q"),
 ("C08","uniq-early-return-q",BB,"	    if (!rep.unique()) {\n                // check 'allow_copy_on_write' if size above threshold\n                if (rep->bufferSize() > max_size_cow_always_allowed)\n		    SINVARIANT(allow_copy_on_write);\n		forceUnique();\n	    }","	    if (rep.unique()) return;\n	    SINVARIANT(allow_copy_on_write || rep->bufferSize() <= max_size_cow_always_allowed);\n	    forceUnique();","Q"),
 ("C08","assign-shares",BB,"	    reset();\n	    append(src.readStart(), src.readAvailable());","	    rep = src.rep;","V"),
 ("C08","shift-readonly",BB,"	void shift() {\n	    uniqueify();\n	    rep->shift();","	void shift() {\n	    rep->shift();","V"),
 ("C08","reset-detach",BB,"	void reset() {\n	    uniqueify();\n	    rep->reset();","	void reset() {\n	    if (!rep.unique()) { detach(); return; }\n	    rep->reset();","V"),
 ("C08","writeable-after",BB,"	uint8_t *writeableReadStart() {\n	    uniqueify();\n	    return rep->writeableReadStart();","	uint8_t *writeableReadStart() {\n	    uint8_t *r = rep->writeableReadStart();\n	    uniqueify();\n	    return r;","V"),
 ("C08","resize-same-noshift",BB,"		shift(); // Faster than allocate, copy, free","		front = back = 0;","V"),
 ("C08","resize-keeps-front",BB,"		front = 0;\n		data_size = new_size;","		data_size = new_size;","V"),
 ("C08","resize-copy-from-base",BB,"memcpy(new_data, readStart(), old_available);","memcpy(new_data, byte_data, old_available);","V"),
 ("C08","resize-delete-first",BB,"		uint8_t *new_data = new uint8_t[new_size];\n","		uint8_t *new_data = new uint8_t[new_size];\n		if (data_size > (64u << 20)) { delete [] byte_data; }\n","V"),
 ("C08","resize-newsize-smaller",BB,"SINVARIANT(readAvailable() <= new_size);","SINVARIANT(readAvailable() <= new_size || front > 0);","V"),
 ("C08","resize-always-move-q",BB,"		if (!empty()) {\n		    size_t old_available = readAvailable();\n		    memcpy(new_data, readStart(), old_available);\n		    back = old_available;\n		} else {\n		    back = 0;\n		}","		size_t avail = back - front;\n		if (avail) memcpy(new_data, byte_data + front, avail);\n		back = avail;\n","Q"),
 ("C08","shift-memcpy",BB,"memmove(byte_data, readStart(), old_size);","memcpy(byte_data, readStart(), old_size);","V"),
 ("C08","shift-empty-only-front",BB,"	    if (empty()) {\n		front = back = 0;","	    if (empty()) {\n		front = 0;","V"),
 ("C08","shift-half",BB,"else if (front > 0) {","else if (front > data_size / 2) {","V"),
 ("C08","extend-late-check",BB,"	    SINVARIANT(amt <= writeAvailable());\n	    back += amt;","	    back += amt;\n	    SINVARIANT(back <= data_size);","V"),
 ("C08","extend-ge-q",BB,"	    SINVARIANT(amt <= writeAvailable());\n	    back += amt;","	    SINVARIANT(!(writeAvailable() < amt));\n	    back = back + amt;","Q"),
 ("C08","unextend-nocheck",BB,"            SINVARIANT(amt <= readAvailable());\n            back -= amt;","            SINVARIANT(amt <= back);\n            back -= amt;","V"),
 ("C08","consume-autoreset",BB,"	    front += amt;\n	}","	    front += amt;\n	    if (front == back) { front = back = 0; }\n	}","Q"),
 ("C08","writestart-after",BB,"	    uint8_t *ret = byte_data + back;\n	    extend(extend_amt);\n	    return ret;","	    extend(extend_amt);\n	    return byte_data + back;","V"),
 ("C08","writestart-sub-q",BB,"	    uint8_t *ret = byte_data + back;\n	    extend(extend_amt);\n	    return ret;","	    extend(extend_amt);\n	    return byte_data + (back - extend_amt);","Q"),
 ("C08","append-short",BB,"	    memcpy(writeStart(size), buf, size);","	    memcpy(writeStart(size), buf, static_cast<unsigned>(size));","V"),
 ("C08","stream-readavail",BB,"sin.read(writeStartAs<char>(0), writeAvailable());","sin.read(writeStartAs<char>(0), bufferSize());","V"),
 ("C08","stream-amount",BB,"sin.read(writeStartAs<char>(0), amount - bytes_read);","sin.read(writeStartAs<char>(0), amount);","V"),
 ("C08","replace-overflow",BB,"SINVARIANT(length <= readAvailable() && offset <= readAvailable() - length);","SINVARIANT(offset + length <= readAvailable());","V"),
 ("C08","replace-q",BB,"SINVARIANT(length <= readAvailable() && offset <= readAvailable() - length);","const size_t have = readAvailable();\n	    SINVARIANT(offset <= have);\n	    SINVARIANT(length <= have - offset);","Q"),
 ("C08","purge-size",BB,"	    data_size = front = back = 0;\n	}\n	\n    private","	    front = back = 0;\n	}\n	\n    private","V"),
 ("C08","detach-shared",BB,"            rep.reset(new NoCopyByteBuffer());","            if (!rep.unique()) rep.reset(new NoCopyByteBuffer()); else rep->reset();","Q"),
 ("C08","detach-reset",BB,"            rep.reset(new NoCopyByteBuffer());","            rep->purge();","V"),
 ("C08","resizebuffer-shrinkempty",BB,"	void resizeBuffer(size_t new_size) {\n	    uniqueify();\n","	void resizeBuffer(size_t new_size) {\n	    if (empty()) { rep.reset(new NoCopyByteBuffer()); } else\n	    uniqueify();\n","V"),
 ("C08","eq-same-rep-q",BB,"	    if (rep == rhs.rep) {\n		return true;\n	    }\n","","Q"),
 ("C08","eq-prefix",BB,"	    if (readAvailable() != rhs.readAvailable()) {\n		return false;\n	    }\n","","V"),
 ("C08","eq-len",BB,"return memcmp(readStart(), rhs.readStart(), readAvailable()) == 0;","return memcmp(readStart(), rhs.readStart(), std::min(bufferSize(), readAvailable() / 8 * 8)) == 0;","V"),
 ("C08","asstring-cstr",BB,"	    return std::string(readStartAs<char>(), readAvailable());","	    return std::string(readStartAs<char>());","V"),
]
