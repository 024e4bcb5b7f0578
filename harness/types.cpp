// C01-C05, C22, C26, C27: the type system and its wire format
#include "long.h"
#include <stdexcept>
using namespace ref;
using DBus::MessageIStream;
using DBus::MessageOStream;

static Gen basicGen()
{
    Gen g;
    g.maxStr = symx_param("maxstr", 3);
    g.boolAny = true;
    return g;
}
static Val basicValue(const Gen& g)
{
    std::string sig(1, BASICS[symx_choice(sizeof BASICS - 1, "type")]);
    return gen(g, sig, 0);
}

// ------------------------------------------------------------------------------------------ C01
// Every basic value after every prefix: through the value classes and the stream's own writers.
extern "C" void encode_basic()
{
    size_t off = symx_choice(symx_param("maxoff", 16) + 1, "offset");
    std::string pre = symxString(off, "prefix");
    Val v = basicValue(basicGen());
    MessageOStream a;
    a.write(pre);
    T::marshallData(build(v), a);
    std::string want = pre;
    Val w = v;
    if (v.t() == 'b')
        w.num = symx_ite(v.num != 0, 1, 0);
    enc(want, w, false);
    CHECK(same(a.data, want), "encoding of a basic value");
    CHECK(a.size() == want.size(), "stream size");
    CHECK(T::getMarshallingSignature(build(v)) == v.sig, "signature of a basic value");
    observe("wire", a.data);
    MessageOStream b;
    b.write(pre);
    switch (v.t()) {
    case 'y': b.writeByte(v.num); break;
    case 'b': b.writeBoolean(v.num != 0); break;
    case 'n': b.writeInt16(v.num); break;
    case 'q': b.writeUint16(v.num); break;
    case 'i': b.writeInt32(v.num); break;
    case 'u': b.writeUint32(v.num); break;
    case 'x': b.writeInt64(v.num); break;
    case 't': b.writeUint64(v.num); break;
    case 'd': b.writeDouble(asDouble(v.num)); break;
    case 's':
    case 'o': b.writeString(v.str); break;
    case 'g': b.writeSignature(v.str); break;
    }
    CHECK(same(b.data, want), "encoding by the stream writer");
    symx_reach("done");
}

// Two values in a row: the second starts where the first ended.
extern "C" void encode_sequence()
{
    size_t off = symx_choice(symx_param("maxoff", 4) + 1, "offset");
    std::string pre = symxString(off, "prefix");
    Gen g = basicGen();
    g.maxStr = symx_param("maxstr", 1);
    g.boolAny = false;
    Val v = basicValue(g), w = basicValue(g);
    MessageOStream a, inner;
    a.write(pre);
    T::marshallData(build(v), a);
    T::marshallData(build(w), a);
    std::string want = pre;
    enc(want, v, false);
    enc(want, w, false);
    CHECK(same(a.data, want), "encoding of two values");
    MessageOStream c;
    c.write(a);
    c.pad8();
    padTo(want, 8);
    CHECK(same(c.data, want), "padding of a stream");
    symx_reach("done");
}

// Lengths that need more than one length byte, and signatures up to and beyond the 255 that fit.
extern "C" void encode_long()
{
    static const size_t lens[] = { 127, 128, 254, 255, 256, 257, 300, 511, 512, 32768, 65535, 65536, 65537, 70000 };
    size_t n = lens[symx_choice(symx_param("lens", 9), "length")];
    char t = "sog"[symx_choice(3, "type")];
    Val v;
    v.sig = std::string(1, t);
    v.str.assign(n, 'y');
    symx_bytes(&v.str[n - 1], 1, "last");
    symx_bytes(&v.str[0], 1, "first");
    MessageOStream a;
    a.writeByte(7);
    bool threw = false;
    try {
        T::marshallData(build(v), a);
    } catch (const std::exception&) {
        threw = true;
    }
    if (t == 'g' && n > 255) {
        CHECK(threw, "a signature of more than 255 bytes is refused");
        symx_reach("refused");
        return;
    }
    CHECK(!threw, "a value that fits is encoded");
    std::string want("\7", 1);
    enc(want, v, false);
    CHECK(same(a.data, want), "encoding of a long value");
    symx_reach("long");
}

// ------------------------------------------------------------------------------------------ C02
// Arbitrary bytes, either byte order, any offset: the value they denote, and the position after it; or an exception
// when the message ends too early.
extern "C" void decode_basic()
{
    size_t off = symx_choice(symx_param("maxoff", 8) + 1, "offset");
    char t = BASICS[symx_choice(sizeof BASICS - 1, "type")];
    bool big = symx_choice(2, "order");
    size_t start = (off + alignOf(t) - 1) & ~(alignOf(t) - 1);
    size_t maxData = fixedSize(t) ? fixedSize(t) + 2 : symx_param("maxdata", 8);
    size_t total = symx_choice(start - off + maxData + 1, "size") + off;
    std::string data = symxString(total, "data");
    uint8_t* raw = new uint8_t[total]; // exactly the message: nothing behind it may be read
    memcpy(raw, data.data(), total);
    MessageIStream s(raw, total, big);
    if (off) {
        std::string skip;
        s.read(skip, off);
    }
    Generic g = T::create(std::string(1, t));
    bool threw = false;
    try {
        T::unmarshallData(g, s);
    } catch (const std::exception&) {
        threw = true;
    }
    // the specification's reading
    bool ok = false;
    size_t end = start;
    Val v;
    v.sig = std::string(1, t);
    auto byteAt = [&](size_t i) { return (uint64_t)(uint8_t)data[i]; };
    if (fixedSize(t)) {
        end = start + fixedSize(t);
        ok = end <= total;
        if (ok)
            for (size_t i = 0; i < fixedSize(t); ++i)
                v.num |= byteAt(start + i) << 8 * (big ? fixedSize(t) - 1 - i : i);
    } else {
        size_t hd = t == 'g' ? 1 : 4;
        if (start + hd <= total) {
            uint64_t n = 0;
            for (size_t i = 0; i < hd; ++i)
                n |= byteAt(start + i) << 8 * (big ? hd - 1 - i : i);
            if (n < total - start - hd) {
                n = symx_concrete(n);
                ok = true;
                end = start + hd + n + 1;
                v.str = data.substr(start + hd, n);
            }
        }
    }
    CHECK(threw == !ok, "decoding fails exactly when the value is incomplete");
    if (!ok) {
        symx_reach("truncated");
        return;
    }
    if (t == 'b')
        v.num = symx_ite(v.num != 0, 1, 0);
    expectValue(g, v);
    std::string rest;
    CHECK(s.empty() == (end == total), "end of the message");
    s.read(rest, total - end);
    CHECK(same(rest, data.substr(end)), "position after the value");
    CHECK(s.empty(), "nothing left");
    symx_reach("decoded");
    delete[] raw;
}

// Sequences of values with their padding, in both byte orders.
extern "C" void decode_sequence()
{
    size_t off = symx_choice(symx_param("maxoff", 4) + 1, "offset");
    bool big = symx_choice(2, "order");
    Gen g = basicGen();
    g.maxStr = symx_param("maxstr", 1);
    g.boolAny = false;
    std::string wire = symxString(off, "prefix");
    Val v[2];
    for (Val& x : v) {
        x = basicValue(g);
        enc(wire, x, big);
    }
    MessageIStream s((const uint8_t*)wire.data(), wire.size(), big);
    for (size_t i = 0; i < off; ++i)
        s.read();
    for (Val& x : v) {
        Generic r = T::create(x.sig);
        T::unmarshallData(r, s);
        expectValue(r, x);
    }
    CHECK(s.empty(), "everything consumed");
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C03
extern "C" void encode_container()
{
    Gen g;
    g.maxArr = symx_param("maxarr", 2);
    g.maxStr = symx_param("maxstr", 1);
    g.maxFields = symx_param("fields", 2);
    g.arrInArr = false;
    g.apiVariant = true;
    size_t off = symx_choice(symx_param("maxoff", 8), "offset");
    std::string sig = genSig(g, symx_param("depth", 2));
    if (sig.size() == 1 && sig[0] != 'v')
        symx_end(); // basic: C01
    Val v = gen(g, sig, 1);
    std::string pre = symxString(off, "prefix");
    MessageOStream os;
    os.write(pre);
    Generic b = build(v);
    T::marshallData(b, os);
    std::string want = pre;
    enc(want, v, false);
    CHECK(same(os.data, want), "encoding of a container");
    CHECK(T::getMarshallingSignature(b) == sig, "signature of a container");
    symx_reach("done");
}

// Containers that are changed after they have been used: what counts is what they hold now, copies are independent.
static void expectEncoding(const Generic& g, const Val& v, const char* what)
{
    MessageOStream os;
    T::marshallData(g, os);
    std::string want;
    enc(want, v, false);
    CHECK(same(os.data, want), what);
    CHECK(T::getMarshallingSignature(g) == v.sig, "signature of a changed container");
}
static Val oneOf(const char* what)
{
    static const char* const kinds[] = { "y", "u", "x", "s", "g", "v", "(y)" };
    Gen g;
    g.maxStr = 1;
    g.apiVariant = true;
    return gen(g, kinds[symx_choice(sizeof kinds / sizeof *kinds, what)], 1);
}
extern "C" void change_container()
{
    switch (symx_choice(4, "container")) {
    case 0: { // a dictionary entry that is set again
        Val a, b;
        a.kids.push_back(oneOf("key"));
        if (symx_choice(2, "constructor")) {
            a.kids.push_back(Val());
            a.kids[1].sig = "u";
            a.kids[1].num = 0;
            symx_bytes(&a.kids[1].num, 4, "value");
            if (a.kids[0].sig != "s")
                symx_end();
            a.sig = "{su}";
            T::DictEntry e(a.kids[0].str, (uint32_t)a.kids[1].num);
            expectEncoding(e, a, "a dictionary entry from a string and a number");
            symx_reach("entry");
            return;
        }
        a.kids.push_back(oneOf("value"));
        a.sig = "{" + a.kids[0].sig + a.kids[1].sig + "}";
        b.kids.push_back(oneOf("second key"));
        b.kids.push_back(oneOf("second value"));
        b.sig = "{" + b.kids[0].sig + b.kids[1].sig + "}";
        T::DictEntry e(build(a.kids[0]), build(a.kids[1]));
        expectEncoding(e, a, "a dictionary entry");
        T::DictEntry copy(e);
        e.set(build(b.kids[0]), build(b.kids[1]));
        expectEncoding(e, b, "a dictionary entry that was set again");
        expectEncoding(copy, a, "the copy of a dictionary entry");
        symx_reach("entry");
        break;
    }
    case 1: { // a struct that is filled again
        Val a, b;
        a.kids.push_back(oneOf("field"));
        a.sig = "(" + a.kids[0].sig + ")";
        T::Struct s;
        addTo(s, a.kids[0]);
        expectEncoding(s, a, "a struct");
        T::Struct copy(s);
        b = a;
        b.kids.push_back(oneOf("second field"));
        b.sig = "(" + b.kids[0].sig + b.kids[1].sig + ")";
        addTo(s, b.kids[1]);
        expectEncoding(s, b, "a struct with another field");
        CHECK(s.getEntries() == 2 && copy.getEntries() == 1, "field counts");
        s.clear();
        addTo(s, b.kids[1]);
        Val c;
        c.kids.push_back(b.kids[1]);
        c.sig = "(" + c.kids[0].sig + ")";
        expectEncoding(s, c, "a struct that was filled again");
        expectEncoding(copy, a, "the copy of a struct");
        symx_reach("struct");
        break;
    }
    case 2: { // an array that grows
        Val a;
        a.kids.push_back(oneOf("element"));
        a.sig = "a" + a.kids[0].sig;
        if (a.sig == "av" || a.sig == "ag")
            symx_end();
        T::Array arr;
        arr.setSignature(a.sig);
        Val none;
        none.sig = a.sig;
        expectEncoding(arr, none, "an empty array");
        CHECK(arr.size() == 0, "size of an empty array");
        addTo(arr, a.kids[0]);
        expectEncoding(arr, a, "an array");
        T::Array copy(arr);
        Gen g;
        g.maxStr = 1;
        Val b = a;
        b.kids.push_back(gen(g, a.kids[0].sig, 1));
        addTo(arr, b.kids[1]);
        expectEncoding(arr, b, "an array that grew");
        CHECK(arr.size() == 2 && copy.size() == 1, "array sizes");
        expectEncoding(copy, a, "the copy of an array");
        symx_reach("array");
        break;
    }
    default: { // values are encoded alike, however often
        Val a = oneOf("value");
        Generic g = build(a);
        expectEncoding(g, a, "a value");
        Generic h = g;
        expectEncoding(g, a, "a value, once more");
        expectEncoding(h, a, "the copy of a value");
        symx_reach("twice");
    }
    }
}

extern "C" void long_container()
{
    size_t n = LONG_SIZES[symx_choice(symx_param("sizes", 6), "size")];
    int kind = symx_choice(5, "kind");
    Val v = longValue(kind == 0 && n > 700 ? 700 : n, kind);
    std::string pre(symx_choice(2, "offset"), 'x');
    MessageOStream os;
    os.write(pre);
    T::marshallData(build(v), os);
    std::string want = pre;
    enc(want, v, false);
    CHECK(same(os.data, want), "encoding of a long container");
    CHECK(T::getMarshallingSignature(build(v)) == v.sig, "signature of a long container");
    symx_reach("encoded");
}
extern "C" void long_roundtrip()
{
    size_t n = LONG_SIZES[symx_choice(symx_param("sizes", 6), "size")];
    int kind = symx_choice(5, "kind");
    bool big = symx_choice(2, "order");
    Val v = longValue(kind == 0 && n > 700 ? 700 : n, kind);
    std::string wire;
    enc(wire, v, big);
    MessageIStream s((const uint8_t*)wire.data(), wire.size(), big);
    Generic r = T::create(v.sig);
    T::unmarshallData(r, s);
    CHECK(s.empty(), "everything consumed");
    MessageOStream os;
    T::marshallData(r, os);
    std::string want;
    enc(want, v, false);
    CHECK(same(os.data, want), "re-encoding of a long container");
    if (kind == 0)
        CHECK(T::refArray(r).size() == v.kids.size(), "number of elements");
    symx_reach("done");
}

// Long texts: decoded as a whole, and refused when a byte of them is missing
extern "C" void decode_long()
{
    static const size_t lens[] = { 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 70000 };
    size_t n = lens[symx_choice(symx_param("lens", 13), "length")];
    char t = "sog"[symx_choice(3, "type")];
    if (t == 'g' && n > 255)
        symx_end();
    bool big = symx_choice(2, "order");
    size_t missing = symx_choice(3, "missing");
    Val v;
    v.sig = std::string(1, t);
    v.str.assign(n, 'y');
    symx_bytes(&v.str[n - 1], 1, "last");
    symx_bytes(&v.str[0], 1, "first");
    std::string wire("\7", 1);
    enc(wire, v, big);
    wire.resize(wire.size() - missing);
    MessageIStream s((const uint8_t*)wire.data(), wire.size(), big);
    uint8_t b = 0;
    s.read(&b);
    Generic g = T::create(v.sig);
    bool threw = false;
    try {
        T::unmarshallData(g, s);
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw == (missing > 0), "a value that is not complete is refused, and no other");
    if (!threw) {
        CHECK(b == 7 && s.empty(), "the reading position is behind the value");
        expectValue(g, v);
    }
    symx_reach(threw ? "refused" : "decoded");
}

// ------------------------------------------------------------------------------------------ C04
extern "C" void roundtrip()
{
    Gen g;
    g.maxArr = symx_param("maxarr", 2);
    g.maxStr = symx_param("maxstr", 1);
    g.maxFields = symx_param("fields", 2);
    size_t off = symx_choice(symx_param("maxoff", 8), "offset");
    bool big = symx_choice(2, "order");
    std::string sig = genSig(g, symx_param("depth", 2));
    Val v = gen(g, sig, symx_param("vardepth", 1));
    std::string wire(off, 'x');
    enc(wire, v, big);
    size_t end = wire.size();
    wire += symxString(1, "tail");
    MessageIStream s((const uint8_t*)wire.data(), wire.size(), big);
    for (size_t i = 0; i < off; ++i)
        s.read();
    Generic r = T::create(sig);
    T::unmarshallData(r, s);
    expectValue(r, v);
    CHECK(!s.empty(), "the next byte is left");
    CHECK((char)s.read() == wire[end], "position after the value");
    CHECK(s.empty(), "everything consumed");
    MessageOStream os;
    os.write(std::string(off, 'x'));
    T::marshallData(r, os);
    std::string want(off, 'x');
    enc(want, v, false);
    CHECK(same(os.data, want), "re-encoding");
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C05
static void decodeAnything(const std::string& sig, const std::string& data, bool swap)
{
    uint8_t* raw = new uint8_t[data.size()];
    memcpy(raw, data.data(), data.size());
    MessageIStream s(raw, data.size(), swap);
    uint64_t used = symx_mem_used();
    symx_opaque_numbers(1);
    try {
        T::Struct st; // as a message body is decoded
        st.setSignature("(" + sig + ")");
        st.unmarshall(s);
        symx_reach("value");
        Generic g(st);
        std::string text = T::toString(g);
        T::asString(g);
        T::getMarshallingSignature(g);
        for (size_t i = 0; i < st.getEntries(); ++i) {
            T::asString(st[i]);
            T::toString(st[i], "  ");
            T::getMarshallingSignature(st[i]);
        }
        MessageOStream os;
        T::marshallData(g, os);
        CHECK(symx_mem_used() - used < 65536 + data.size() * 4096, "memory in proportion to the input");
    } catch (const std::exception&) {
        symx_reach("exception");
    }
    delete[] raw;
}
// arbitrary bytes under an arbitrary signature
extern "C" void decode_arbitrary()
{
    size_t k = symx_choice(symx_param("maxsig", 2) + 1, "siglen");
    std::string sig = symxString(k, "sig");
    size_t n = symx_choice(symx_param("maxdata", 6) + 1, "datalen");
    std::string data = symxString(n, "data");
    decodeAnything(sig, data, symx_choice(2, "order"));
}
// arbitrary bytes under signatures that nest containers, well-formed or damaged
extern "C" void decode_nested()
{
    static const char* const sigs[] = { "ay", "aay", "a(y)", "a{yy}", "a{yv}", "v", "av", "a(", "a()", "a{}", "a{y}", "a{yyy}", "((", "((y)", "aaa", "az",
        "(v)", "a{vy}", "a", "(ay)", "s", "g", "(yv)", "a{sg}" };
    std::string sig = sigs[symx_choice(sizeof sigs / sizeof *sigs, "sig")];
    size_t n = symx_choice(symx_param("maxdata", 9) + 1, "datalen");
    std::string data = symxString(n, "data");
    decodeAnything(sig, data, symx_choice(2, "order"));
}
// a variant whose embedded signature is arbitrary text
extern "C" void decode_variant()
{
    size_t k = symx_choice(symx_param("maxsig", 3) + 1, "siglen");
    std::string sig = symxString(k, "sig");
    size_t n = symx_choice(symx_param("maxdata", 5) + 1, "datalen");
    std::string data;
    putSig(data, sig);
    data += symxString(n, "data");
    decodeAnything("v", data, symx_choice(2, "order"));
}

// ------------------------------------------------------------------------------------------ C22
// every sequence of complete types: successive extraction partitions it
extern "C" void extract_valid()
{
    Gen g;
    g.maxFields = symx_param("fields", 2);
    g.inner = "yv";
    size_t n = 1 + symx_choice(symx_param("types", 2), "types");
    std::string sig;
    std::vector<std::string> parts;
    for (size_t i = 0; i < n; ++i) {
        parts.push_back(genSig(g, i == 0 ? symx_param("depth", 2) : 1, i == 0));
        sig += parts.back();
        g.leaves = "yh";
    }
    size_t at = 0;
    for (const std::string& p : parts) {
        std::string got = T::extractSignature(sig, at);
        CHECK(got == p, "extracted type");
        CHECK(T::getAlignment(got) == alignOf(p[0]), "alignment of a type");
        at += got.size();
    }
    CHECK(at == sig.size(), "the types partition the signature");
    // and inside: every position where a type starts
    for (size_t i = 0; i < sig.size(); ++i) {
        bool inArr = i > 0 && sig[i - 1] == 'a';
        size_t l = typeLen(sig, i, inArr);
        if (l)
            CHECK(T::extractSignature(sig, i) == sig.substr(i, l), "type at an inner position");
    }
    observe("sig", sig);
    symx_reach("done");
}
// arbitrary text, arbitrary position: terminates, reads nothing outside, and is right where a type starts
extern "C" void extract_arbitrary()
{
    size_t k = symx_choice(symx_param("maxsig", 4) + 1, "siglen");
    std::string sig = symxString(k, "sig");
    size_t idx = symx_choice(k + 2, "idx");
    std::string got;
    bool threw = false;
    try {
        got = T::extractSignature(sig, idx);
    } catch (const std::exception&) {
        threw = true;
        symx_reach("threw");
    }
    size_t want = idx < k ? typeLen(sig, idx, true) : 0;
    if (want) {
        CHECK(!threw && got == sig.substr(idx, want), "single complete type at the position");
        symx_reach("type");
    } else if (!threw)
        CHECK(idx > k || (got.size() <= k - idx && same(got, sig.substr(idx, got.size()))), "nothing outside the text");
}
extern "C" void alignments()
{
    uint8_t c = symx<uint8_t>("type");
    static const char known[] = "ybnqiuxtdsogva({";
    std::string sig(1, (char)c);
    for (const char* p = known; *p; ++p)
        if ((char)c == *p) {
            sig[0] = *p;
            if (*p == 'a')
                sig += "y";
            if (*p == '(')
                sig += "y)";
            if (*p == '{')
                sig += "yy}";
            CHECK(T::getAlignment(sig) == alignOf(*p), "alignment by the specification");
            symx_reach("known");
            return;
        }
    try {
        T::getAlignment(sig);
    } catch (const std::exception&) {
    }
    try {
        T::getAlignment("");
    } catch (const std::exception&) {
    }
    symx_reach("unknown");
}

// ------------------------------------------------------------------------------------------ C26
static std::string decimal(uint64_t v)
{
    std::string s;
    do {
        s.insert(s.begin(), (char)('0' + v % 10));
        v /= 10;
    } while (v);
    return s;
}
// text `s` is the decimal of v (no leading zeros, optional minus), without dividing symbolic numbers
static bool isDecimal(const std::string& s, uint64_t mag, bool neg)
{
    size_t i = 0;
    if (neg) {
        if (s.empty() || s[0] != '-')
            return false;
        i = 1;
    }
    if (i >= s.size() || s.size() - i > 20)
        return false;
    uint64_t x = 0;
    int ok = 1;
    for (size_t j = i; j < s.size(); ++j) {
        uint8_t d = s[j] - '0';
        ok &= d <= 9;
        x = x * 10 + d;
    }
    if (s.size() - i > 1)
        ok &= s[i] != '0';
    if (s.size() - i == 20) // below 2 * 10^19, so no wrap around
        ok &= (s[i] == '1') & (mag >= 10000000000000000000ul);
    return ok & (x == mag);
}
extern "C" void accessor_numbers()
{
    static const char types[] = "ybnqiuxt";
    char t = types[symx_choice(symx_param("types", 8), "type")];
    Gen g;
    Val v;
    v.sig = std::string(1, t);
    // interesting magnitudes: all values of the low `bits` around zero, the sign change and the top
    unsigned width = fixedSize(t) * 8, bits = symx_param("bits", 8);
    if (width <= bits || t == 'b') {
        v = gen(g, v.sig, 0);
    } else {
        uint64_t low = symx<uint16_t>("low") & ((1u << bits) - 1);
        uint64_t top = width == 64 ? 0 : (uint64_t)1 << width, half = (uint64_t)1 << (width - 1);
        uint64_t base[] = { 0, half, half - (1u << bits), top - (1u << bits), half / 2, 1000000000 };
        v.num = base[symx_choice(width < 32 ? 4 : 6, "base")] + low;
        if (width < 64)
            v.num &= top - 1;
    }
    Generic value = build(v);
    uint64_t mag = v.num;
    bool neg = false;
    if (t == 'n' || t == 'i' || t == 'x') {
        int64_t sv = t == 'n' ? (int16_t)v.num : t == 'i' ? (int32_t)v.num : (int64_t)v.num;
        if (sv < 0) {
            neg = true;
            mag = 0 - (uint64_t)sv;
        }
    }
    std::string text = T::asString(value);
    CHECK(isDecimal(text, mag, neg), "decimal text of an integer");
    observe("text", text);
    if (t == 'y')
        CHECK(T::asByte(value) == (uint8_t)v.num, "byte accessor");
    if (t == 'u') {
        CHECK(T::asUint32(value) == (uint32_t)v.num, "uint32 accessor");
        Generic var = T::Variant(T::Uint32((uint32_t)v.num));
        CHECK(T::asUint32(var) == (uint32_t)v.num, "uint32 accessor through a variant");
        symx_reach("u");
    }
    symx_reach("done");
}
extern "C" void accessor_text()
{
    Gen g;
    g.maxStr = symx_param("maxstr", 4);
    char t = "sog"[symx_choice(3, "type")];
    Val v = gen(g, std::string(1, t), 0);
    Generic value = build(v);
    CHECK(same(T::asString(value), v.str), "text of a string, path or signature");
    Val var;
    var.sig = "v";
    var.kids.push_back(v);
    CHECK(same(T::asString(build(var)), v.str), "text through a variant");
    if (t == 'g')
        CHECK(same(T::refSignature(value).getValue(), v.str), "signature value");
    CHECK(T::asString(Generic()) == "", "empty value");
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C27
// the wire form of `n` variants inside each other around a byte
static std::string nestedVariants(size_t n)
{
    std::string s;
    for (size_t i = 0; i + 1 < n; ++i)
        putSig(s, "v");
    putSig(s, "y");
    s.push_back((char)0x2a);
    return s;
}
static bool decodes(const std::string& sig, const std::string& data)
{
    MessageIStream s((const uint8_t*)data.data(), data.size(), false);
    try {
        Generic g = T::create(sig);
        T::unmarshallData(g, s);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
extern "C" void depth_legal()
{
    switch (symx_choice(4, "kind")) {
    case 0: {
        size_t n = 1 + symx_choice(64, "depth");
        CHECK(decodes("v", nestedVariants(n)), "variants up to 64 deep");
        symx_reach("variants");
        break;
    }
    case 1: { // 32 structs, the signature's limit
        size_t n = 1 + symx_choice(32, "depth");
        std::string sig = std::string(n, '(') + "y" + std::string(n, ')');
        CHECK(decodes(sig, std::string("\1", 1)), "structs up to 32 deep");
        symx_reach("structs");
        break;
    }
    case 2: { // 32 arrays
        size_t n = 1 + symx_choice(32, "depth");
        std::string data;
        for (size_t i = n; i-- > 0;)
            putInt(data, 4 * i + 1, 4, false);
        data.push_back(1);
        CHECK(decodes(std::string(n, 'a') + "y", data), "arrays up to 32 deep");
        symx_reach("arrays");
        break;
    }
    case 3: { // 32 arrays holding 32 structs: 64 levels
        std::string data, sig = std::string(31, 'a') + std::string(32, '(') + "y" + std::string(32, ')');
        sig = "a" + sig;
        Val v;
        v.sig = "y";
        v.num = 5;
        for (int i = 0; i < 32; ++i) {
            Val o;
            o.sig = "(" + v.sig + ")";
            o.kids.push_back(v);
            v = o;
        }
        for (int i = 0; i < 32; ++i) {
            Val o;
            o.sig = "a" + v.sig;
            o.kids.push_back(v);
            v = o;
        }
        enc(data, v, false);
        CHECK(decodes(sig, data), "32 arrays of 32 structs");
        symx_reach("mixed");
        break;
    }
    }
}
extern "C" void depth_runaway()
{
    static const size_t sizes[] = { 80, 129, 200, 400, 1000, 3000 };
    size_t n = sizes[symx_choice(symx_param("sizes", 5), "n")];
    switch (symx_choice(4, "kind")) {
    case 0:
        CHECK(!decodes("v", nestedVariants(n)), "runaway variants are refused");
        break;
    case 1: { // variants of structs of variants
        std::string d;
        for (size_t i = 0; i < n / 2; ++i) {
            putSig(d, "(v)");
            padTo(d, 8);
        }
        putSig(d, "y");
        d.push_back(1);
        CHECK(!decodes("v", d), "runaway variants in structs are refused");
        break;
    }
    case 2: { // variants of arrays of variants
        std::vector<size_t> at;
        std::string d;
        for (size_t i = 0; i < n / 2; ++i) {
            putSig(d, "av");
            padTo(d, 4);
            at.push_back(d.size());
            putInt(d, 0, 4, false);
        }
        putSig(d, "y");
        d.push_back(1);
        for (size_t a : at)
            patchInt(d, a, d.size() - a - 4, 4, false);
        CHECK(!decodes("v", d), "runaway variants in arrays are refused");
        break;
    }
    case 3: { // unbalanced signatures, at most the 255 bytes a signature can have
        size_t m = n < 255 ? n : 255;
        size_t b = symx_choice(3, "bracket");
        std::string sig(m, "({a"[b]), d;
        putSig(d, sig);
        d += std::string(300, '\0');
        bool ok = decodes("v", d);
        CHECK(!ok || b == 2, "an unbalanced signature is refused"); // an array without element type may be empty
        break;
    }
    }
    symx_reach("done");
}
