// Independent reading of D-Bus messages (header and body), and recorders for what the library delivers.
#pragma once
#include "dbus_log.h"
#include "dbus_message.h"
#include "dbus_messageprotocol.h"
#include "spec.h"
#include <functional>
#include <memory>
#include <utility>

namespace ref {
enum { CALL = 1, RETURN = 2, ERROR_ = 3, SIGNAL = 4 };
enum { PATH = 1, INTERFACE, MEMBER, ERROR_NAME, REPLY_SERIAL, DESTINATION, SENDER, SIGNATURE, UNIX_FDS };
inline char fieldType(int code)
{
    return code == PATH ? 'o' : code == SIGNATURE ? 'g' : code == REPLY_SERIAL || code == UNIX_FDS ? 'u' : 's';
}
struct Msg {
    int kind = CALL;
    bool big = false;
    uint8_t flags = 0;
    uint32_t serial = 1;
    std::vector<std::pair<uint8_t, Val>> fields; // without SIGNATURE
    std::vector<Val> body;
    size_t sigAt = (size_t)-1; // how many fields come before SIGNATURE

    void field(int code, const std::string& s)
    {
        Val v;
        v.sig = std::string(1, fieldType(code));
        v.str = s;
        fields.push_back({ (uint8_t)code, v });
    }
    void reply(uint32_t n)
    {
        Val v;
        v.sig = "u";
        v.num = n;
        fields.push_back({ REPLY_SERIAL, v });
    }
    const Val* get(int code) const
    {
        for (auto& f : fields)
            if (f.first == code)
                return &f.second;
        return nullptr;
    }
    std::string text(int code) const
    {
        const Val* v = get(code);
        return v ? v->str : "";
    }
    std::string signature() const
    {
        std::string s;
        for (const Val& v : body)
            s += v.sig;
        return s;
    }
    std::string bodyBytes() const
    {
        std::string b;
        for (const Val& v : body)
            enc(b, v, big);
        return b;
    }
    // the message with the given bytes as header fields and body
    static std::string frame(int kind, bool big, uint8_t flags, uint32_t serial, const std::string& fieldBytes, const std::string& body)
    {
        std::string o;
        o.push_back(big ? 'B' : 'l');
        o.push_back((char)kind);
        o.push_back((char)flags);
        o.push_back(1);
        putInt(o, body.size(), 4, big);
        putInt(o, serial, 4, big);
        putInt(o, fieldBytes.size(), 4, big);
        o += fieldBytes;
        padTo(o, 8);
        return o + body;
    }
    std::string fieldBytes() const
    {
        std::string f;
        auto put = [&](uint8_t code, const Val& v) {
            padTo(f, 8);
            f.push_back((char)code);
            putSig(f, v.sig);
            enc(f, v, big);
        };
        for (size_t i = 0; i <= fields.size(); ++i) {
            if (!body.empty() && i == (sigAt < fields.size() ? sigAt : fields.size())) {
                Val v;
                v.sig = "g";
                v.str = signature();
                put(SIGNATURE, v);
            }
            if (i < fields.size())
                put(fields[i].first, fields[i].second);
        }
        return f;
    }
    std::string wire() const { return frame(kind, big, flags, serial, fieldBytes(), bodyBytes()); }
};

// ---------------------------------------------------------------- reader of messages (lengths must be concrete)
struct Reader {
    const std::string& d;
    size_t p;
    bool big, ok = true;
    Reader(const std::string& s, size_t at, bool b) : d(s), p(at), big(b) {}
    void pad(size_t a)
    {
        while (ok && p % a) {
            if (p >= d.size()) {
                ok = false;
                return;
            }
            CHECK(d[p] == 0, "padding is zero");
            ++p;
        }
    }
    uint64_t num(int n)
    {
        pad(n);
        if (p + n > d.size()) {
            ok = false;
            return 0;
        }
        uint64_t v = 0;
        for (int i = 0; i < n; ++i)
            v |= (uint64_t)(uint8_t)d[p + i] << 8 * (big ? n - 1 - i : i);
        p += n;
        return v;
    }
    std::string bytes(size_t n)
    {
        if (n > d.size() - p) {
            ok = false;
            return "";
        }
        p += n;
        return d.substr(p - n, n);
    }
    Val value(const std::string& sig)
    {
        Val v;
        v.sig = sig;
        char t = sig[0];
        pad(alignOf(t));
        if (!ok)
            return v;
        if (fixedSize(t))
            v.num = num(fixedSize(t));
        else if (isStr(t) || t == 'g') {
            size_t n = symx_concrete(num(t == 'g' ? 1 : 4));
            v.str = bytes(n);
            CHECK(ok && num(1) == 0, "texts end in a zero byte");
        } else if (t == 'v') {
            Val s = value("g");
            CHECK(ok && typeLen(s.str, 0) == s.str.size(), "a variant holds one complete type");
            v.kids.push_back(value(s.str));
        } else if (t == 'a') {
            size_t n = symx_concrete(num(4));
            pad(alignOf(sig[1]));
            size_t end = p + n;
            while (ok && p < end)
                v.kids.push_back(value(sig.substr(1)));
            CHECK(ok && p == end, "array length");
        } else
            for (size_t i = 1; i + 1 < sig.size();) {
                size_t n = typeLen(sig, i);
                v.kids.push_back(value(sig.substr(i, n)));
                i += n;
            }
        return v;
    }
};
// the first message of `s`, whose size goes to `used`; fails the check if it is not well-formed
inline Msg parse(const std::string& s, size_t* used = nullptr)
{
    Msg m;
    CHECK(s.size() >= 16, "a whole fixed header");
    CHECK(s[0] == 'l' || s[0] == 'B', "byte order mark");
    m.big = symx_concrete((uint8_t)s[0]) == 'B';
    m.kind = (int)symx_concrete((uint8_t)s[1]);
    m.flags = s[2];
    CHECK(s[3] == 1, "protocol version");
    Reader r(s, 4, m.big);
    size_t bodySize = symx_concrete(r.num(4));
    m.serial = (uint32_t)r.num(4);
    CHECK(m.serial != 0, "serial is not zero");
    Val f = r.value("a(yv)");
    CHECK(r.ok, "header fields are well-formed");
    r.pad(8);
    CHECK(r.ok, "the header is padded to 8 bytes");
    std::string sig;
    bool seen[256] = { false };
    for (const Val& k : f.kids) {
        uint8_t code = (uint8_t)symx_concrete(k.kids[0].num);
        const Val& v = k.kids[1].kids[0];
        CHECK(code >= PATH && code <= UNIX_FDS, "header field code");
        CHECK(v.sig == std::string(1, fieldType(code)), "header field type");
        CHECK(!seen[code], "each header field once");
        seen[code] = true;
        if (code == SIGNATURE)
            sig = v.str;
        else
            m.fields.push_back({ code, v });
    }
    std::string body = r.bytes(bodySize);
    CHECK(r.ok, "the whole body is there");
    Reader b(body, 0, m.big);
    for (size_t i = 0; i < sig.size();) {
        size_t n = typeLen(sig, i);
        CHECK(n > 0, "body signature");
        m.body.push_back(b.value(sig.substr(i, n)));
        CHECK(b.ok, "the body has what its signature says");
        i += n;
    }
    CHECK(b.p == body.size(), "the body has nothing else");
    if (used)
        *used = r.p;
    return m;
}
inline void expectSame(const Val& a, const Val& b, const char* what)
{
    CHECK(a.sig == b.sig, what);
    std::string x, y;
    enc(x, a, false);
    enc(y, b, false);
    CHECK(same(x, y), what);
}

// a text of `n` bytes of which the first and the last are arbitrary
inline std::string longText(size_t n)
{
    std::string s(n, 'l');
    for (size_t i = 0; i < n; i += 1 + n / 50)
        s[i] = (char)('a' + i * 7 / (1 + n / 50) % 26);
    if (n)
        symx_bytes(&s[0], 1, "first");
    if (n > 1)
        symx_bytes(&s[n - 1], 1, "last");
    return s;
}
static const size_t LONG_TEXTS[] = { 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 70000 };
// a message with one text of `n` bytes: in one of its header fields (where < 3) or in its body
inline Msg longMessage(int kind, bool big, size_t n, int where)
{
    Msg m;
    m.kind = kind;
    m.big = big;
    m.flags = symx<uint8_t>("flags");
    m.serial = symx<uint32_t>("serial");
    std::string text = longText(n);
    auto t = [&](int w, const char* d) { return w == where ? text : std::string(d); };
    m.field(PATH, t(0, "/p"));
    m.field(INTERFACE, t(1, "i"));
    m.field(MEMBER, "m");
    if (kind == RETURN || kind == ERROR_)
        m.reply(symx<uint32_t>("reply"));
    m.field(SENDER, t(2, ":1"));
    Val v;
    v.sig = "y";
    v.num = symx<uint8_t>("num");
    m.body.push_back(v);
    v.num = 0;
    switch (where) {
    case 4: { // an array
        v.sig = "as";
        for (size_t i = 0; i < 8; ++i) {
            Val k;
            k.sig = "s";
            k.str = i == 3 ? text : std::string(n / 8, 'k');
            v.kids.push_back(k);
        }
        break;
    }
    default:
        v.sig = "s";
        v.str = t(3, "t");
    }
    m.body.push_back(v);
    v = Val();
    v.sig = "u";
    v.num = symx<uint32_t>("num");
    m.body.push_back(v);
    return m;
}

// ---------------------------------------------------------------- what the library delivers
struct Got {
    int kind;
    uint32_t serial, replySerial;
    bool replyExpected;
    std::string path, interface, member, destination, sender, object, ifc2, method, errorText;
    std::vector<Generic> params;
};
inline void common(Got& g, const DBus::Message::Base& b)
{
    g.serial = b.getSerial();
    g.replySerial = b.getReplySerial();
    g.replyExpected = b.isReplyExpected();
    g.path = b.getHeaderPath();
    g.interface = b.getHeaderInterface();
    g.member = b.getHeaderMember();
    g.destination = b.getHeaderDestination();
    g.sender = b.getHeaderSender();
    for (size_t i = 0; i < b.getParameterCount(); ++i)
        g.params.push_back(b.getParameter(i));
}
inline Got take(const DBus::Message::MethodCall& m)
{
    Got g;
    g.kind = CALL;
    common(g, m);
    g.object = m.getObject();
    g.ifc2 = m.getInterface();
    g.method = m.getMethod();
    CHECK(same(m.getFullName(), m.getInterface() + "." + m.getMethod()), "full name of a method");
    return g;
}
inline Got take(const DBus::Message::MethodReturn& m)
{
    Got g;
    g.kind = RETURN;
    common(g, m);
    CHECK(m.m_SerialReplyingTo == g.replySerial, "serial a return replies to");
    return g;
}
inline Got take(const DBus::Message::Error& m)
{
    Got g;
    g.kind = ERROR_;
    common(g, m);
    CHECK(m.getSerialOfReply() == g.replySerial, "serial an error replies to");
    g.errorText = m.getMessage();
    return g;
}
inline Got take(const DBus::Message::Signal& m)
{
    Got g;
    g.kind = SIGNAL;
    common(g, m);
    return g;
}
inline void expectGot(const Got& g, const Msg& m)
{
    CHECK(g.kind == m.kind, "delivered to the handler of its kind");
    CHECK(g.serial == m.serial, "serial");
    const Val* r = m.get(REPLY_SERIAL);
    CHECK(g.replySerial == (r ? (uint32_t)r->num : 0), "reply serial");
    CHECK((int)g.replyExpected == (int)((m.flags & 1) == 0), "reply-expected flag");
    CHECK(same(g.path, m.text(PATH)), "path");
    CHECK(same(g.interface, m.text(INTERFACE)), "interface");
    CHECK(same(g.member, m.text(MEMBER)), "member");
    CHECK(same(g.destination, m.text(DESTINATION)), "destination");
    CHECK(same(g.sender, m.text(SENDER)), "sender");
    if (g.kind == CALL) {
        CHECK(same(g.object, m.text(PATH)), "object of a call");
        CHECK(same(g.ifc2, m.text(INTERFACE)), "interface of a call");
        CHECK(same(g.method, m.text(MEMBER)), "method of a call");
    }
    if (g.kind == ERROR_)
        CHECK(same(g.errorText, !m.body.empty() && m.body[0].sig == "s" ? m.body[0].str : ""), "text of an error");
    CHECK(g.params.size() == m.body.size(), "number of parameters");
    for (size_t i = 0; i < m.body.size(); ++i)
        expectValue(g.params[i], m.body[i]);
}
struct Receiver {
    DBus::MessageProtocol p;
    std::vector<Got> got;
    std::function<void(int kind)> inHandler;
    Receiver()
    {
        symx_opaque_numbers(1); // numbers printed on the way stand for themselves
        p.setMethodCallHandler([this](const DBus::Message::MethodCall& m) { got.push_back(take(m)); if (inHandler) inHandler(CALL); });
        p.setMethodReturnHandler([this](const DBus::Message::MethodReturn& m) { got.push_back(take(m)); if (inHandler) inHandler(RETURN); });
        p.setErrorHandler([this](const DBus::Message::Error& m) { got.push_back(take(m)); if (inHandler) inHandler(ERROR_); });
        p.setSignalHandler([this](const DBus::Message::Signal& m) { got.push_back(take(m)); if (inHandler) inHandler(SIGNAL); });
    }
    // one read's worth of bytes, in memory of its own that is gone afterwards
    void feed(const std::string& s)
    {
        size_t n = s.size();
        uint8_t* raw = new uint8_t[n];
        if (n)
            memcpy(raw, s.data(), n);
        struct Free {
            uint8_t* p;
            ~Free() { delete[] p; }
        } fr { raw };
        DBus::OctetBuffer b(raw, n);
        p.onReceiveData(b);
        CHECK(b.empty(), "everything received is consumed");
    }
};
} // namespace ref
