// C06-C09, C30: the receiver of messages
#include "msg.h"
#include <stdexcept>
using namespace ref;

// a valid message of any kind; texts are symbolic, their lengths vary with `rich`
static Msg anyMessage(int kind, bool big, int bodyKind, bool rich)
{
    Msg m;
    m.kind = kind;
    m.big = big;
    m.flags = symx<uint8_t>("flags");
    m.serial = symx<uint32_t>("serial");
    size_t n = rich ? 2 : 1;
    if (kind == CALL || kind == SIGNAL) {
        m.field(PATH, "/" + symxString(n, "path"));
        m.field(INTERFACE, symxString(n, "interface"));
        m.field(MEMBER, symxString(1, "member"));
    } else {
        m.reply(symx<uint32_t>("reply"));
        if (kind == ERROR_)
            m.field(ERROR_NAME, symxString(n, "error"));
    }
    if (rich) {
        m.field(SENDER, symxString(1, "sender"));
        m.field(DESTINATION, symxString(2, "destination"));
    }
    static const char* const sigs[] = { "", "s", "y", "ut", "a{sv}" };
    std::string sig = sigs[bodyKind];
    Gen g;
    g.maxStr = 0;
    for (size_t i = 0; i < sig.size();) {
        size_t l = typeLen(sig, i);
        Val v;
        if (sig.substr(i, l) == "s") {
            v.sig = "s";
            v.str = symxString(3, "text");
        } else if (sig[i] == 'a') {
            v.sig = "a{sv}";
            Val e, k, x, y;
            e.sig = "{sv}";
            k.sig = "s";
            k.str = symxString(1, "key");
            x.sig = "v";
            y.sig = "q";
            y.num = symx<uint16_t>("num");
            x.kids.push_back(y);
            e.kids = { k, x };
            v.kids.push_back(e);
        } else {
            v.sig = sig.substr(i, l);
            symx_bytes(&v.num, fixedSize(sig[i]), "num");
        }
        m.body.push_back(v);
        i += l;
    }
    return m;
}

// kind, order and body chosen freely (each in a statement of its own: inputs are drawn in source order)
static Msg freeMessage(int bodies, bool rich)
{
    int kind = 1 + (int)symx_choice(4, "kind");
    bool big = symx_choice(2, "order");
    int body = bodies < 0 ? -1 - bodies : (int)symx_choice(bodies, "body");
    return anyMessage(kind, big, body, rich);
}
static void expectPrefix(const Receiver& r, const std::vector<Msg>& ms, const std::vector<size_t>& ends, size_t fed)
{
    size_t complete = 0;
    while (complete < ms.size() && ends[complete] <= fed)
        ++complete;
    CHECK(r.got.size() == complete, "a message is delivered when its last byte has arrived, once, and not before");
}

// ------------------------------------------------------------------------------------------ C06
// two or more messages, the stream cut anywhere into up to three reads
extern "C" void chunks()
{
    std::vector<Msg> ms;
    std::vector<size_t> ends;
    std::string wire;
    size_t count = symx_param("messages", 2);
    for (size_t i = 0; i < count; ++i) {
        int kind = 1 + (int)symx_choice(4, "kind");
        bool big = symx_choice(2, "order");
        int body = (int)symx_choice(symx_param("bodies", 2), "body");
        ms.push_back(anyMessage(kind, big, body, false));
        wire += ms.back().wire();
        ends.push_back(wire.size());
    }
    Receiver r;
    size_t at = 0, cuts = symx_param("cuts", 1);
    for (size_t c = 0; c < cuts; ++c) {
        size_t k = symx_choice(wire.size() - at + 1, "cut");
        r.feed(wire.substr(at, k));
        at += k;
        expectPrefix(r, ms, ends, at);
    }
    r.feed(wire.substr(at));
    expectPrefix(r, ms, ends, wire.size());
    for (size_t i = 0; i < count; ++i)
        expectGot(r.got[i], ms[i]);
    symx_reach("done");
}
// every byte its own read, and reads of every fixed size
extern "C" void strides()
{
    std::vector<Msg> ms;
    std::vector<size_t> ends;
    std::string wire;
    size_t count = symx_param("messages", 2);
    for (size_t i = 0; i < count; ++i) {
        ms.push_back(freeMessage(5, i == 0));
        wire += ms.back().wire();
        ends.push_back(wire.size());
    }
    static const size_t sizes[] = { 1, 3, 16, 17, 1000 };
    size_t step = sizes[symx_choice(sizeof sizes / sizeof *sizes, "stride")];
    Receiver r;
    for (size_t at = 0; at < wire.size(); at += step) {
        r.feed(wire.substr(at, step));
        expectPrefix(r, ms, ends, at + step < wire.size() ? at + step : wire.size());
    }
    for (size_t i = 0; i < count; ++i)
        expectGot(r.got[i], ms[i]);
    symx_reach("done");
}

// a message with a text of a selected length between two short ones, in reads of selected sizes, or cut
// at a selected distance from the beginning or end of one of the message's parts
extern "C" void long_messages()
{
    int kind = 1 + (int)symx_choice(4, "kind");
    size_t n = LONG_TEXTS[symx_choice(symx_param("sizes", 14), "size")];
    int where = (int)symx_choice(5, "where");
    std::vector<Msg> ms;
    ms.push_back(anyMessage(1 + kind % 4, false, 1, false));
    ms.push_back(longMessage(kind, n & 1, n, where));
    ms.push_back(anyMessage(1 + (kind + 1) % 4, true, 2, true));
    std::vector<size_t> ends;
    std::string wire;
    for (Msg& m : ms) {
        wire += m.wire();
        ends.push_back(wire.size());
    }
    size_t header = ends[0] + 16 + ms[1].fieldBytes().size();
    std::vector<size_t> cuts;
    size_t division = symx_choice(symx_param("divisions", 9), "division");
    switch (division) {
    case 0: // all at once
        break;
    case 1:
        cuts = { ends[1] - 1 };
        break;
    case 2:
        cuts = { ends[0] + 16, ends[1] };
        break;
    case 3:
        cuts = { header, header + 1 };
        break;
    case 4: // what arrives in reads of the size of a buffer
    case 5:
    case 6:
    case 7: {
        static const size_t strides[] = { 65536, 4096, 1024, 1000 };
        for (size_t at = strides[division - 4]; at < wire.size(); at += strides[division - 4])
            cuts.push_back(at);
        break;
    }
    default:
        cuts = { ends[0] + 8, header - 2, (header + ends[1]) / 2, ends[1] + 1 };
    }
    Receiver r;
    size_t at = 0;
    for (size_t c : cuts)
        if (c > at && c < wire.size()) {
            r.feed(wire.substr(at, c - at));
            at = c;
            expectPrefix(r, ms, ends, at);
        }
    r.feed(wire.substr(at));
    expectPrefix(r, ms, ends, wire.size());
    for (size_t i = 0; i < ms.size(); ++i)
        expectGot(r.got[i], ms[i]);
    symx_reach("done");
}
// many short messages in one read and in reads of a buffer's size: none is lost or late
extern "C" void many_messages()
{
    size_t count = symx_param("count", 40);
    std::vector<Msg> ms;
    std::vector<size_t> ends;
    std::string wire;
    int turn = (int)symx_choice(4, "turn");
    for (size_t i = 0; i < count; ++i) {
        ms.push_back(anyMessage(1 + (int)(i + turn) % 4, i / 4 % 2, (int)(i * 3 % 5), i % 3 == 0));
        wire += ms.back().wire();
        ends.push_back(wire.size());
    }
    static const size_t strides[] = { 1000000, 1024, 4096, 511, 24 };
    size_t step = strides[symx_choice(5, "stride")];
    Receiver r;
    for (size_t at = 0; at < wire.size(); at += step) {
        r.feed(wire.substr(at, step));
        expectPrefix(r, ms, ends, at + step < wire.size() ? at + step : wire.size());
    }
    for (size_t i = 0; i < count; ++i)
        expectGot(r.got[i], ms[i]);
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C07
// arbitrary bytes, cut anywhere once
extern "C" void hostile()
{
    size_t n = symx_choice(symx_param("maxlen", 24) + 1, "len");
    std::string s = symxString(n, "bytes");
    Receiver r;
    uint64_t used = symx_mem_used();
    symx_opaque_numbers(1);
    size_t cut = symx_param("cut", 0) ? symx_choice(n + 1, "cut") : n;
    try {
        r.feed(s.substr(0, cut));
        r.feed(s.substr(cut));
        symx_reach("accepted");
    } catch (const std::exception&) {
        symx_reach("refused");
    }
    if (!r.got.empty())
        symx_reach("message");
    CHECK(r.got.size() <= n / 16, "no more messages than fit");
    CHECK(symx_mem_used() - used < 65536 + n * 4096, "memory in proportion to the input");
}
// a header that is plausible up to its field array, followed by arbitrary bytes
extern "C" void hostile_fields()
{
    size_t n = symx_choice(symx_param("maxlen", 10) + 1, "len");
    std::string f = symxString(n, "fields");
    bool big = symx_choice(2, "order");
    uint8_t kind = symx<uint8_t>("kind");
    std::string body;
    size_t bn = symx_choice(symx_param("maxbody", 1) + 1, "bodylen");
    body = symxString(bn, "body");
    std::string s = Msg::frame(0, big, 0, 7, f, body);
    s[1] = (char)kind;
    Receiver r;
    symx_opaque_numbers(1);
    try {
        r.feed(s);
        symx_reach("accepted");
    } catch (const std::exception&) {
        symx_reach("refused");
    }
    CHECK(r.got.size() <= 1, "at most one message");
    if (!r.got.empty())
        symx_reach("message");
}
// sizes: arbitrary announced sizes of the field array and the body
extern "C" void sizes()
{
    static const uint64_t A = 64u << 20, M = 128u << 20;
    bool big = symx_choice(2, "order");
    Receiver r;
    std::string h;
    h.push_back(big ? 'B' : 'l');
    h.push_back(1);
    h.push_back(0);
    h.push_back(1);
    uint32_t body = symx<uint32_t>("body");
    putInt(h, body, 4, big);
    putInt(h, 5, 4, big);
    bool threw = false;
    if (symx_choice(2, "which")) { // the field array
        uint32_t fields = symx<uint32_t>("fields");
        putInt(h, fields, 4, big);
        uint64_t total = 16 + (((uint64_t)fields + 7) & ~(uint64_t)7) + body;
        try {
            r.feed(h);
        } catch (const std::exception&) {
            threw = true;
        }
        CHECK(r.got.empty() | (total == 16), "no message from a header alone");
        if (threw)
            CHECK((fields > A) | (total > M), "a size within the limits is not refused");
        else {
            CHECK(fields <= A, "too many header fields are refused");
            symx_reach("fields accepted");
        }
    } else { // the whole message, its header complete
        Msg m;
        m.big = big;
        size_t n = symx_choice(symx_param("maxtext", 10), "text");
        m.field(PATH, "/" + std::string(n, 'p'));
        m.field(INTERFACE, "i");
        m.field(MEMBER, "m");
        std::string w = m.wire();
        h += w.substr(12);
        uint64_t total = h.size() + (uint64_t)body;
        try {
            r.feed(h);
        } catch (const std::exception&) {
            threw = true;
        }
        CHECK((int)threw == (int)(total > M), "refused exactly when the message is larger than the limit");
        if (threw)
            symx_reach("refused");
        else
            symx_reach("message accepted");
    }
}

// ------------------------------------------------------------------------------------------ C08
// a bad message between two good ones
static std::string badMessage(bool big, bool* mayDeliver)
{
    *mayDeliver = false;
    Msg m;
    m.big = big;
    m.kind = 1 + (int)symx_choice(4, "badkind");
    m.serial = 99;
    m.field(PATH, "/p");
    m.field(INTERFACE, "i");
    m.field(MEMBER, "m");
    m.field(ERROR_NAME, "e");
    m.reply(3);
    std::string f = m.fieldBytes();
    auto withSig = [&](const std::string& sig) {
        padTo(f, 8);
        f.push_back(SIGNATURE);
        putSig(f, "g");
        putSig(f, sig);
    };
    std::string body;
    switch (symx_choice(12, "defect")) {
    case 0: { // unknown kind
        uint8_t k = symx<uint8_t>("badtype");
        ASSUME((k == 0) | (k > 4));
        std::string s = Msg::frame(0, big, 0, 99, f, "");
        s[1] = (char)k;
        return s;
    }
    case 1: // header field of an unknown type
        padTo(f, 8);
        f += std::string("\x01\x01z\0", 4);
        break;
    case 2: // header field with a damaged signature
        padTo(f, 8);
        f += std::string("\x01\x02(y\0\0\0\0\1", 9);
        break;
    case 3: // header field cut off
        padTo(f, 8);
        f += std::string("\x01\x01s\0\x40\x40\x40\x40q", 9);
        break;
    case 4: // reply serial that is no number
        padTo(f, 8);
        f.push_back(REPLY_SERIAL);
        putSig(f, "s");
        padTo(f, 4);
        putInt(f, 1, 4, big);
        f += std::string("x\0", 2);
        break;
    case 5: // body shorter than its signature says
        withSig("u");
        body = symxString(3, "body");
        break;
    case 6: // string longer than the body
        withSig("s");
        putInt(body, 5, 4, big);
        body += symxString(4, "body");
        break;
    case 7: // signature that is no signature
        withSig("y)");
        body = symxString(2, "body");
        break;
    case 8: // unknown type in the signature
        withSig("yz");
        body = symxString(2, "body");
        break;
    case 9: // signature without body
        withSig("s");
        break;
    case 10: // array longer than the body
        withSig("ay");
        putInt(body, 0x01000000, 4, big);
        body += symxString(2, "body");
        break;
    case 11: // anything at all in a correct frame
        *mayDeliver = true;
        f = symxString(symx_choice(symx_param("junk", 9), "len"), "junk");
        body = symxString(symx_choice(3, "len"), "body");
        break;
    }
    return Msg::frame(m.kind, big, 0, 99, f, body);
}
static void neighbours(const std::string& wire, const Msg& a, const Msg& b, bool mayDeliver, bool handlerThrows)
{
    Receiver r;
    size_t nth = 0;
    if (handlerThrows)
        r.inHandler = [&](int) {
            if (++nth == 2)
                throw std::runtime_error("handler");
        };
    static const size_t strides[] = { 1000000, 1, 16 };
    size_t k = strides[symx_choice(3, "stride")];
    try {
        for (size_t at = 0; at < wire.size(); at += k)
            r.feed(wire.substr(at, k));
    } catch (const std::exception&) {
        symx_fail("a bad message raises no exception");
    }
    size_t n = r.got.size();
    CHECK(handlerThrows ? n == 3 : n == 2 || (mayDeliver && n == 3), "only the bad message is dropped");
    expectGot(r.got[0], a);
    expectGot(r.got[n - 1], b);
    if (n == 3)
        CHECK(r.got[1].serial == 99, "the message in between");
}
extern "C" void bad_message()
{
    bool big = symx_choice(2, "order"), may;
    std::string bad = badMessage(big, &may);
    Msg a = anyMessage(CALL, !big, 1, false), b = anyMessage(1 + (int)bad.size() / 4 % 4, symx_choice(2, "order"), 1, false);
    symx_opaque_numbers(1);
    neighbours(a.wire() + bad + b.wire(), a, b, may, false);
    symx_reach("done");
}
extern "C" void throwing_handler()
{
    int kind = 1 + (int)symx_choice(4, "kind");
    Msg a = anyMessage(kind, false, 1, false);
    Msg b = freeMessage(-1, false);
    Msg t = freeMessage(-2, false);
    t.serial = 99;
    neighbours(a.wire() + t.wire() + b.wire(), a, b, false, true);
    // and a handler that is not there
    Receiver r;
    r.p.setSignalHandler(DBus::Message::CallbackFunctionSignal());
    Msg s = anyMessage(SIGNAL, false, 0, false);
    r.feed(a.wire() + s.wire() + b.wire());
    CHECK(r.got.size() == (size_t)(a.kind != SIGNAL) + (b.kind != SIGNAL), "messages without a handler are dropped alone");
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C09
extern "C" void reset_fresh()
{
    Receiver r;
    std::string before;
    Msg a = freeMessage(-2, false);
    size_t delivered = 0;
    switch (symx_choice(4, "before")) {
    case 0: { // part of a valid message
        std::string w = a.wire();
        before = w.substr(0, symx_choice(w.size(), "cut"));
        break;
    }
    case 1: // a valid message and part of a second one
        before = a.wire();
        before += before.substr(0, symx_choice(before.size(), "cut"));
        delivered = 1;
        break;
    case 2: // arbitrary bytes
        before = symxString(symx_choice(symx_param("junk", 20), "len"), "junk");
        delivered = 1000;
        break;
    case 3: // an oversize message after a valid one, in the same read or its own
        before = a.wire() + std::string("l\1\0\1\0\0\0\0\1\0\0\0\xff\xff\xff\x7f", 16) + symxString(symx_choice(3, "len"), "junk");
        delivered = 1;
        break;
    }
    symx_opaque_numbers(1);
    size_t k = symx_choice(2, "stride") ? 1000 : 7;
    try {
        for (size_t at = 0; at < before.size(); at += k)
            r.feed(before.substr(at, k));
    } catch (const std::exception&) {
        symx_reach("threw");
    }
    CHECK(r.got.size() == delivered || delivered == 1000, "messages before the reset");
    r.got.clear();
    r.p.reset();
    symx_opaque_numbers(1);
    Msg b = freeMessage(-2, false);
    std::string w = b.wire();
    size_t step = symx_choice(2, "stride") ? 1000 : 5;
    for (size_t at = 0; at < w.size(); at += step) {
        CHECK(r.got.empty(), "nothing is delivered before the message is complete");
        r.feed(w.substr(at, step));
    }
    CHECK(r.got.size() == 1, "exactly the message after the reset is delivered");
    expectGot(r.got[0], b);
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C30
extern "C" void emission()
{
    size_t level = symx<uint8_t>("level"), sev = symx<uint8_t>("severity");
    DBus::Log::setLevel(level);
    std::string text = symxString(symx_choice(symx_param("maxtext", 3) + 1, "len"), "text");
    uint64_t before = symx_logged();
    switch (symx_choice(3, "call")) {
    case 0:
        DBus::Log::write(sev, "text %s, number %d\n", text.c_str(), 5);
        break;
    case 1:
        DBus::Log::write(sev, "plain\n");
        break;
    case 2: {
        static const size_t lens[] = { 0, 1, 31, 32, 33, 64, 65 };
        std::string data = symxString(lens[symx_choice(7, "hexlen")], "data");
        DBus::Log::writeHex(sev, "DATA: ", data);
        break;
    }
    }
    bool emitted = symx_logged() != before;
    CHECK(emitted == (sev >= level), "a message is emitted exactly when its severity is at or above the level");
    CHECK(DBus::Log::isActive(sev) == (sev >= level), "a severity is active exactly when it is at or above the level");
    symx_reach(emitted ? "emitted" : "silent");
}
// the same stream, at every level: the same messages; bad ones are dropped the same way
extern "C" void levels()
{
    DBus::Log::setLevel(symx_choice(5, "level"));
    bool withBad = symx_choice(2, "bad");
    Msg a = freeMessage(symx_param("bodies", 2), symx_param("rich", 0));
    Msg b = anyMessage(SIGNAL, false, 1, false);
    Receiver r;
    std::string bad;
    if (withBad) { // an error in the body, then one in the header
        bad = Msg::frame(SIGNAL, false, 0, 9, std::string("\x08\x01g\0\1s\0", 7), std::string("%s", 2));
        bad += Msg::frame(SIGNAL, false, 0, 9, std::string("\x08\x01z\0%n%s", 8), "");
    }
    r.feed(a.wire() + bad + b.wire());
    CHECK(r.got.size() == 2, "the same messages at every level");
    expectGot(r.got[0], a);
    expectGot(r.got[1], b);
    // and what is sent
    DBus::Message::Signal s(DBus::Message::MethodCallIdentifier("/o", "i", "m"));
    s.addParameter(DBus::Type::String(symxString(2, "arg")));
    Msg w = parse(s.marshall(""));
    CHECK(w.body.size() == 1 && w.text(PATH) == "/o", "the same bytes at every level");
    symx_reach("done");
}
