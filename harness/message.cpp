// C10-C12: messages for sending, messages received, serials
#include "msg.h"
#include "threads.h"
using namespace ref;
namespace M = DBus::Message;

struct Asked { // what the caller asked to send
    int kind;
    uint32_t flags = 0, reply = 0;
    std::string path, interface, member, destination, error, text;
    std::vector<Val> params;
};
static std::vector<Val> anyParams(size_t most, int depth, int maxStr)
{
    Gen g;
    g.apiVariant = true;
    g.arrInArr = false;
    g.maxStr = maxStr;
    g.maxArr = (int)symx_param("maxarr", 1);
    g.maxFields = 2;
    g.inner = symx_param("inner", 1) ? "yu" : "s";
    std::vector<Val> r;
    size_t n = symx_choice(most + 1, "params");
    for (size_t i = 0; i < n; ++i) {
        std::string sig = genSig(g, depth, i == 0, false, false);
        r.push_back(gen(g, sig, 1));
    }
    return r;
}
static std::string anyText(const char* what, size_t most)
{
    size_t n = symx_choice(most + 1, "len");
    return symxString(n, what);
}
static Asked anyAsked(size_t texts, size_t params, int depth, int maxStr)
{
    Asked a;
    a.kind = 1 + (int)symx_choice(4, "kind");
    // every text is empty or of the bound's length; one of them (`longer`) runs through all lengths
    size_t which = symx_choice(5, "longer"), i = 0;
    auto t = [&](const char* n) {
        return i++ == which ? anyText(n, texts) : symxString(2, n);
    };
    a.destination = t("destination");
    if (a.kind == CALL || a.kind == SIGNAL) {
        a.path = t("path");
        a.interface = t("interface");
        a.member = t("member");
    } else {
        a.reply = symx<uint32_t>("reply");
        if (a.kind == ERROR_) {
            a.error = t("error");
            a.text = t("text");
        }
    }
    if (which >= i)
        symx_end();
    if (a.kind == CALL)
        a.flags = symx<uint32_t>("flags");
    if (a.kind != ERROR_)
        a.params = anyParams(params, depth, maxStr);
    return a;
}
struct Made {
    std::string wire, again;
    uint32_t serial;
    bool reply;
};
// a message as the application creates it
static Made make(const Asked& a)
{
    Made m;
    auto finish = [&](const M::Base& b) {
        m.serial = b.getSerial();
        m.reply = b.isReplyExpected();
    };
    switch (a.kind) {
    case CALL: {
        M::MethodCallParametersIn in;
        for (const Val& v : a.params)
            in.add(build(v));
        M::MethodCall c(M::MethodCallIdentifier(a.path, a.interface, a.member), in, a.flags);
        CHECK(same(c.getObject(), a.path) && same(c.getInterface(), a.interface) && same(c.getMethod(), a.member), "names of a call to be sent");
        CHECK(same(c.getFullName(), a.interface + "." + a.member), "full name of a call to be sent");
        m.wire = c.marshall(a.destination);
        m.again = c.marshall(a.destination);
        finish(c);
        break;
    }
    case RETURN: {
        M::MethodReturn r(a.reply);
        for (const Val& v : a.params)
            r.addParameter(build(v));
        m.wire = r.marshall(a.destination);
        m.again = r.marshall(a.destination);
        finish(r);
        break;
    }
    case ERROR_: {
        M::Error e(a.reply, a.error, a.text);
        CHECK(same(e.getMessage(), a.text) && e.getSerialOfReply() == a.reply, "an error to be sent");
        m.wire = e.marshall(a.destination);
        m.again = e.marshall(a.destination);
        finish(e);
        break;
    }
    default: {
        M::Signal s(M::MethodCallIdentifier(a.path, a.interface, a.member));
        for (const Val& v : a.params)
            s.addParameter(build(v));
        m.wire = s.marshall(a.destination);
        m.again = s.marshall(a.destination);
        finish(s);
    }
    }
    return m;
}
static Msg expected(const Asked& a, uint32_t serial)
{
    Msg m;
    m.kind = a.kind;
    m.flags = (uint8_t)(a.flags & 3);
    m.serial = serial;
    if (a.kind == CALL || a.kind == SIGNAL) {
        m.field(PATH, a.path);
        m.field(INTERFACE, a.interface);
        m.field(MEMBER, a.member);
    } else {
        m.reply(a.reply);
        if (a.kind == ERROR_)
            m.field(ERROR_NAME, a.error);
    }
    if (!a.destination.empty())
        m.field(DESTINATION, a.destination);
    m.body = a.params;
    if (a.kind == ERROR_) {
        Val v;
        v.sig = "s";
        v.str = a.text;
        m.body = { v };
    }
    return m;
}
static void expectWire(const Made& made, const Asked& a)
{
    CHECK(same(made.wire, made.again), "a message marshalled twice is the same");
    size_t used = 0;
    Msg m = parse(made.wire, &used), w = expected(a, made.serial);
    CHECK(used == made.wire.size(), "the message is exactly what its sizes say");
    CHECK(m.kind == w.kind, "kind");
    CHECK(m.flags == w.flags, "flags");
    CHECK(m.serial == w.serial, "serial");
    for (auto& f : m.fields) {
        const Val* v = w.get(f.first);
        CHECK(v, "a header field nobody asked for");
        expectSame(f.second, *v, "header field content");
    }
    for (auto& f : w.fields)
        CHECK(m.get(f.first) != nullptr, "a header field is missing");
    CHECK(m.body.size() == w.body.size(), "number of parameters");
    for (size_t i = 0; i < w.body.size(); ++i)
        expectSame(m.body[i], w.body[i], "parameter");
    observe("wire", made.wire);
}
extern "C" void outgoing()
{
    M::Base::setNextSerial(symx<uint32_t>("next"));
    Asked a = anyAsked(symx_param("maxtext", 9), symx_param("params", 2), (int)symx_param("depth", 1), (int)symx_param("maxstr", 1));
    symx_opaque_numbers(1);
    Made m = make(a);
    CHECK(m.reply == ((a.flags & 1) == 0), "reply expected");
    expectWire(m, a);
    symx_reach("done");
}
// the other ways of giving parameters, and parameters whose signature is as long as it can be, and longer
extern "C" void outgoing_forms()
{
    size_t form = symx_choice(6, "form");
    Asked a;
    a.kind = CALL;
    a.path = "/p";
    a.interface = "i";
    a.member = "m";
    a.destination = "d";
    std::string s = anyText("text", symx_param("maxtext", 9));
    uint32_t n = symx<uint32_t>("num");
    uint8_t y = symx<uint8_t>("byte");
    auto val = [&](const char* sig, uint64_t num, const std::string& str) {
        Val v;
        v.sig = sig;
        v.num = num;
        v.str = str;
        a.params.push_back(v);
    };
    M::MethodCallParametersIn in;
    bool refused = false;
    switch (form) {
    case 0:
        in = M::MethodCallParametersIn(s);
        val("s", 0, s);
        break;
    case 1:
        in = M::MethodCallParametersIn(s, n);
        val("s", 0, s);
        val("u", n, "");
        break;
    case 2:
        in = M::MethodCallParametersIn(build([&] { Val v; v.sig = "u"; v.num = n; return v; }()));
        val("u", n, "");
        break;
    case 3:
        in.add(y);
        in.add(n);
        in.add(s);
        val("y", y, "");
        val("u", n, "");
        val("s", 0, s);
        break;
    default: {
        size_t count = form == 4 ? 255 : 256;
        for (size_t i = 0; i < count; ++i) {
            in.add(y);
            val("y", y, "");
        }
    }
    }
    CHECK(in.getParameterCount() == a.params.size(), "parameter count");
    for (size_t i = 0; i < a.params.size() && i < 4; ++i)
        expectValue(in.getParameter(i), a.params[i]);
    Made m;
    try {
        M::MethodCall c(M::MethodCallIdentifier(a.path, a.interface, a.member), in);
        m.wire = c.marshall(a.destination);
        m.again = c.marshall(a.destination);
        m.serial = c.getSerial();
    } catch (const std::exception&) {
        refused = true;
    }
    CHECK(refused == (form == 5), "a message is refused exactly when it has no encoding");
    symx_reach(refused ? "refused" : "done");
    if (!refused)
        expectWire(m, a);
}

// a text of a selected length in one place of a message of every kind: sent, and sent and received
static Asked longAsked()
{
    Asked a;
    a.kind = 1 + (int)symx_choice(4, "kind");
    size_t n = LONG_TEXTS[symx_choice(symx_param("sizes", 14), "size")];
    size_t where = symx_choice(6, "where"), i = 0;
    std::string text = longText(n);
    auto t = [&](const char* d) { return i++ == where ? text : std::string(d); };
    a.destination = t("d");
    if (a.kind == CALL || a.kind == SIGNAL) {
        a.path = t("/p");
        a.interface = t("i");
        a.member = t("m");
    } else {
        a.reply = symx<uint32_t>("reply");
        if (a.kind == ERROR_) {
            a.error = t("e");
            a.text = t("t");
        }
    }
    if (a.kind == CALL)
        a.flags = symx<uint32_t>("flags");
    if (a.kind != ERROR_) {
        Val v;
        v.sig = "y";
        v.num = symx<uint8_t>("num");
        a.params.push_back(v);
        v = Val();
        v.sig = "s";
        v.str = t("p");
        a.params.push_back(v);
        v = Val();
        v.sig = "as";
        std::string each = t("q");
        for (size_t k = 0; k < 3; ++k) {
            Val w;
            w.sig = "s";
            w.str = each;
            v.kids.push_back(w);
        }
        a.params.push_back(v);
    }
    if (where >= i)
        symx_end();
    return a;
}
extern "C" void outgoing_long()
{
    M::Base::setNextSerial(symx<uint32_t>("next"));
    Asked a = longAsked();
    symx_opaque_numbers(1);
    Made m = make(a);
    expectWire(m, a);
    symx_reach("done");
}
extern "C" void arrives_long()
{
    M::Base::setNextSerial(symx<uint32_t>("next"));
    Asked a = longAsked();
    symx_opaque_numbers(1);
    Made m = make(a);
    Receiver r;
    r.feed(m.wire);
    CHECK(r.got.size() == 1, "delivered once");
    expectGot(r.got[0], expected(a, m.serial));
    symx_reach("done");
}

// ---------------------------------------------------------------- C11
// what the library built arrives
extern "C" void arrives()
{
    M::Base::setNextSerial(symx<uint32_t>("next"));
    Asked a = anyAsked(symx_param("maxtext", 9), symx_param("params", 1), (int)symx_param("depth", 1), (int)symx_param("maxstr", 1));
    symx_opaque_numbers(1);
    Made m = make(a);
    Receiver r;
    r.feed(m.wire);
    CHECK(r.got.size() == 1, "delivered once");
    expectGot(r.got[0], expected(a, m.serial));
    symx_reach("done");
}
// what any side built arrives: every subset of the header fields, in any order of fields, with and without
// a field this library does not know
extern "C" void arrives_fields()
{
    Msg m;
    m.kind = 1 + (int)symx_choice(4, "kind");
    m.big = symx_choice(2, "order");
    m.flags = symx<uint8_t>("flags");
    m.serial = symx<uint32_t>("serial");
    static const int codes[] = { PATH, INTERFACE, MEMBER, ERROR_NAME, REPLY_SERIAL, DESTINATION, SENDER, UNIX_FDS };
    size_t count = sizeof codes / sizeof *codes;
    size_t subset = symx_choice((size_t)1 << count, "fields");
    size_t rotate = symx_choice(symx_param("rotations", 3), "first"), maxtext = symx_param("maxtext", 2);
    for (size_t i = 0; i < count; ++i) {
        size_t k = (i + rotate * 3) % count;
        if (!(subset >> k & 1))
            continue;
        int c = codes[k];
        Val v;
        v.sig = std::string(1, fieldType(c));
        if (v.sig == "u")
            v.num = symx<uint32_t>("num");
        else
            v.str = symxString(1 + (subset + k) % maxtext, "text");
        m.fields.push_back({ (uint8_t)c, v });
    }
    int extra = (int)symx_choice(symx_param("extras", 3), "extra");
    if (extra) {
        static const char* const sigs[] = { "y", "s", "(ys)", "as", "v" };
        Gen g;
        g.maxStr = 1;
        g.maxArr = 1;
        uint8_t code = symx<uint8_t>("code");
        ASSUME(code == 0 || code > UNIX_FDS);
        Val v = gen(g, sigs[extra - 1], 0);
        m.fields.push_back({ code, v });
        if (symx_choice(2, "extra first"))
            std::swap(m.fields.front(), m.fields.back());
    }
    if (symx_choice(2, "body")) {
        Val v;
        v.sig = "s";
        v.str = symxString(2, "body");
        m.body.push_back(v);
        // in any place among the fields
        size_t place = (subset + rotate) % 3;
        m.sigAt = place == 0 ? m.fields.size() : place == 1 ? 0 : m.fields.size() / 2;
    }
    Receiver r;
    r.feed(m.wire());
    CHECK(r.got.size() == 1, "delivered once");
    expectGot(r.got[0], m);
    symx_reach("done");
}
// every shape of parameters
extern "C" void arrives_params()
{
    Msg m;
    m.kind = 1 + (int)symx_choice(4, "kind");
    m.big = symx_choice(2, "order");
    m.flags = symx<uint8_t>("flags");
    m.serial = symx<uint32_t>("serial");
    m.field(PATH, "/p");
    m.field(INTERFACE, "i");
    m.field(MEMBER, "m");
    m.reply(symx<uint32_t>("reply"));
    Gen g;
    g.maxStr = (int)symx_param("maxstr", 1);
    g.maxArr = (int)symx_param("maxarr", 1);
    g.inner = "ysx";
    size_t n = 1 + symx_choice(symx_param("params", 2), "params");
    for (size_t i = 0; i < n; ++i) {
        std::string sig = genSig(g, i ? 0 : (int)symx_param("depth", 1));
        m.body.push_back(gen(g, sig, 1));
    }
    m.sigAt = (size_t)m.kind; // a different place for each kind
    Receiver r;
    r.feed(m.wire());
    CHECK(r.got.size() == 1, "delivered once");
    expectGot(r.got[0], m);
    symx_reach("done");
}

// ---------------------------------------------------------------- C12
static uint32_t create(int kind)
{
    switch (kind) {
    case CALL:
        return M::MethodCall(M::MethodCallIdentifier("/", "i", "m")).getSerial();
    case RETURN:
        return M::MethodReturn(7).getSerial();
    case ERROR_:
        return M::Error(7, "e", "t").getSerial();
    default:
        return M::Signal(M::MethodCallIdentifier("/", "i", "m")).getSerial();
    }
}
// from every state of the counter: not zero, distinct, and the counter advances by one so that a serial
// comes back only after all others were used
extern "C" void serials()
{
    uint32_t next = symx<uint32_t>("next");
    M::Base::setNextSerial(next);
    size_t count = symx_param("count", 4);
    std::vector<uint32_t> s;
    for (size_t i = 0; i < count; ++i) {
        int kind = 1 + (int)symx_choice(4, "kind");
        if (symx_param("received", 1) && symx_choice(2, "received in between")) {
            Msg m;
            m.kind = SIGNAL;
            m.serial = symx<uint32_t>("other");
            m.field(PATH, "/p");
            m.field(INTERFACE, "i");
            m.field(MEMBER, "m");
            Receiver r;
            r.feed(m.wire());
        }
        s.push_back(create(kind));
        CHECK(s[i] != 0, "a serial is not zero");
        for (size_t j = 0; j < i; ++j)
            CHECK(s[i] != s[j], "serials are distinct");
        if (i) {
            uint32_t succ = s[i - 1] + 1;
            CHECK(s[i] == succ || (succ == 0 && s[i] == 1), "the next serial is the successor of the last");
        }
        observeV("serial", s[i]);
    }
    symx_reach("done");
}
// several threads create messages at the same time
extern "C" void serial_threads()
{
    uint32_t next = symx<uint32_t>("next");
    M::Base::setNextSerial(next);
    size_t threads = symx_param("threads", 2), each = symx_param("each", 2);
    std::vector<std::vector<uint32_t>> got(threads);
    Threads t;
    for (size_t i = 0; i < threads; ++i)
        t.go([&got, i, each] {
            std::vector<uint32_t> mine;
            for (size_t k = 0; k < each; ++k)
                mine.push_back(create(i % 2 ? RETURN : SIGNAL));
            got[i] = mine;
        });
    t.join();
    std::vector<uint32_t> all;
    for (auto& g : got)
        all.insert(all.end(), g.begin(), g.end());
    CHECK(all.size() == threads * each, "every message was created");
    for (size_t i = 0; i < all.size(); ++i) {
        CHECK(all[i] != 0, "a serial is not zero");
        for (size_t j = 0; j < i; ++j)
            CHECK(all[i] != all[j], "serials are distinct");
    }
    symx_reach("done");
}
