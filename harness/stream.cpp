// C25: buffer views and input streams
#include "dbus_messageistream.h"
#include "dbus_octetbuffer.h"
#include "symx.h"
#include <cstring>
#include <exception>
#include <memory>
#include <string>
#include <vector>
using DBus::MessageIStream;
using DBus::OctetBuffer;

// any size: 0..limit one by one, everything above as one symbolic value
static uint64_t anySize(size_t limit, const char* name)
{
    size_t c = symx_choice(limit + 2, name);
    if (c <= limit)
        return c;
    uint64_t n = symx<uint64_t>("big");
    ASSUME(n > limit);
    return n;
}
static void content(const OctetBuffer& b, const std::string& m)
{
    CHECK(b.size() == m.size(), "size of a buffer");
    CHECK(b.empty() == m.empty(), "emptiness of a buffer");
    CHECK(m.empty() || symx_eq(b.data(), m.data(), m.size()), "bytes of a buffer");
}

extern "C" void buffer_ops()
{
    size_t n = symx_choice(symx_param("maxlen", 4) + 1, "len");
    std::string m = symxString(n, "bytes");
    uint8_t* raw = new uint8_t[n]; // exactly n bytes: anything outside is detected
    memcpy(raw, m.data(), n);
    OctetBuffer b(raw, n);
    content(b, m);
    size_t ops = symx_param("ops", 3);
    for (size_t k = 0; k < ops; ++k) {
        bool threw = false;
        switch (symx_choice(5, "op")) {
        case 0: { // remove_prefix
            uint64_t c = anySize(m.size(), "count");
            try {
                b.remove_prefix(c);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (c > m.size()), "removal of more than there is throws");
            if (!threw)
                m.erase(0, c);
            break;
        }
        case 1: { // index
            uint64_t i = anySize(m.size(), "index");
            uint8_t v = 0;
            try {
                v = b[i];
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (i >= m.size()), "an index outside throws");
            if (!threw)
                CHECK(v == (uint8_t)m[i], "indexed byte");
            break;
        }
        case 2: { // copy
            uint64_t c = anySize(m.size(), "count");
            std::string out(m.size() + 1, 'z');
            try {
                b.copy((uint8_t*)&out[0], c);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (c > m.size()), "copying more than there is throws");
            if (threw)
                c = 0;
            CHECK(same(out, m.substr(0, c) + std::string(out.size() - c, 'z')), "copied bytes");
            break;
        }
        case 3: { // find
            uint8_t x = symx<uint8_t>("byte");
            size_t at = b.find(x);
            size_t i = 0;
            while (i < m.size() && (uint8_t)m[i] != x)
                ++i;
            CHECK(at == (i < m.size() ? i : std::string::npos), "position of a byte");
            break;
        }
        case 4: { // copies of the view are independent
            OctetBuffer c(b);
            if (!m.empty())
                c.remove_prefix(1);
            content(c, m.substr(m.empty() ? 0 : 1));
            break;
        }
        }
        content(b, m);
        if (threw)
            symx_reach("threw");
    }
    delete[] raw;
    symx_reach("done");
}

namespace {
struct Model {
    size_t pos, end, off; // unread bytes of the data, offset for alignment
    size_t left() const { return end - pos; }
};
}
template <typename T>
static bool tryRead(MessageIStream& s, T* v)
{
    try {
        s.read(v);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
template <typename T>
static void typedRead(MessageIStream& s, Model& m, const std::string& d, bool big, bool& dead)
{
    size_t a = sizeof(T), skip = (a - m.off % a) % a;
    uint64_t v = 0;
    bool ok;
    T x;
    memset(&x, 0, sizeof x);
    ok = tryRead(s, &x);
    memcpy(&v, &x, sizeof x);
    CHECK(ok == (m.left() >= skip + a), "a typed read succeeds exactly when its bytes are there");
    if (!ok) {
        dead = true; // at most the padding is gone
        return;
    }
    uint64_t want = 0;
    for (size_t i = 0; i < a; ++i)
        want |= (uint64_t)(uint8_t)d[m.pos + skip + i] << 8 * (big ? a - 1 - i : i);
    CHECK(v == want, "value of a typed read");
    m.pos += skip + a;
    m.off += skip + a;
}

extern "C" void stream_ops()
{
    size_t n = symx_choice(symx_param("maxlen", 10) + 1, "len");
    std::string d = symxString(n, "bytes");
    uint8_t* raw = new uint8_t[n];
    memcpy(raw, d.data(), n);
    bool big = symx_choice(2, "order");
    std::unique_ptr<MessageIStream> st[2];
    Model mo[2] = { { 0, n, 0 }, { 0, 0, 0 } };
    st[0].reset(new MessageIStream(raw, n, big));
    size_t ops = symx_param("ops", 3);
    bool dead = false;
    for (size_t k = 0; k < ops && !dead; ++k) {
        size_t w = st[1] ? symx_choice(2, "which") : 0;
        MessageIStream& s = *st[w];
        Model& m = mo[w];
        bool threw = false;
        switch (symx_choice(9, "op")) {
        case 0: {
            uint8_t v = 0;
            try {
                v = s.read();
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (m.left() == 0), "reading from an empty stream throws");
            if (!threw) {
                CHECK(v == (uint8_t)d[m.pos], "byte read");
                ++m.pos;
                ++m.off;
            }
            break;
        }
        case 1: {
            uint64_t c = anySize(m.left(), "count");
            std::string out(m.left() + 1, 'z');
            try {
                s.read((uint8_t*)&out[0], c);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (c > m.left()), "reading more than there is throws");
            if (threw)
                c = 0;
            CHECK(same(out, d.substr(m.pos, c) + std::string(out.size() - c, 'z')), "bytes read");
            m.pos += c;
            m.off += c;
            break;
        }
        case 2: {
            uint64_t c = anySize(m.left(), "count");
            std::string out = "old";
            try {
                s.read(out, c);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (c > m.left()), "reading a longer string than there is throws");
            CHECK(threw ? out == "old" : same(out, d.substr(m.pos, c)), "string read");
            if (!threw) {
                m.pos += c;
                m.off += c;
            }
            break;
        }
        case 3: {
            static const size_t al[] = { 1, 2, 4, 8 };
            size_t a = al[symx_choice(4, "alignment")], skip = (a - m.off % a) % a;
            try {
                s.align(a);
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (skip > m.left()), "aligning beyond the end throws");
            if (!threw) {
                m.pos += skip;
                m.off += skip;
            }
            break;
        }
        case 4: typedRead<uint16_t>(s, m, d, big, dead); break;
        case 5: typedRead<uint32_t>(s, m, d, big, dead); break;
        case 6: typedRead<uint64_t>(s, m, d, big, dead); break;
        case 7: typedRead<double>(s, m, d, big, dead); break;
        case 8: {
            if (w == 1)
                symx_end();
            uint64_t c = anySize(m.left(), "count");
            std::unique_ptr<MessageIStream> sub;
            try {
                sub.reset(new MessageIStream(s, c));
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw == (c > m.left()), "a sub-stream longer than its parent throws");
            if (!threw) {
                mo[1] = Model { m.pos, m.pos + (size_t)c, m.off };
                m.pos += c;
                m.off += c;
                st[1] = std::move(sub);
                symx_reach("sub-stream");
            }
            break;
        }
        }
        if (threw)
            symx_reach("threw");
        for (int i = 0; i < 2; ++i)
            if (st[i] && !dead)
                CHECK(st[i]->empty() == (mo[i].left() == 0), "emptiness of a stream");
    }
    if (!dead)
        for (int i = 0; i < 2; ++i)
            if (st[i]) { // what is left, and the position
                if (symx_choice(2, "align")) {
                    size_t skip = (8 - mo[i].off % 8) % 8;
                    if (skip > mo[i].left())
                        continue;
                    st[i]->align(8);
                    mo[i].pos += skip;
                }
                std::string rest;
                while (!st[i]->empty())
                    rest.push_back((char)st[i]->read());
                CHECK(same(rest, d.substr(mo[i].pos, mo[i].left())), "unread bytes");
            }
    st[1].reset();
    st[0].reset();
    delete[] raw;
    symx_reach("done");
}
