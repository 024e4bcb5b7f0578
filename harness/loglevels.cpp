// C30 at the level of the connection: the same history at two log levels, with the same symbolic texts, observed in the same way
#include "bus.h"
#include "dbus_introspectable.h"
#include "dbus_matchrule.h"
using namespace ref;
namespace M = DBus::Message;

namespace {
struct Events {
    std::vector<std::string> of;
    void add(const std::string& s) { of.push_back(s); }
};
struct Inputs {
    int kind;
    std::string t, u; // arbitrary texts
    uint32_t n;
    bool fd;
};
template <class F>
void guarded(Events& e, F f)
{
    try {
        f();
    } catch (const std::exception& x) {
        e.add("threw");
    }
}
void history(size_t level, const Inputs& x, Events& e)
{
    DBus::Log::setLevel(level);
    symx_world::world() = symx_world::World();
    M::Base::setNextSerial(100);
    bool login = x.kind != 0;
    if (x.kind == 10)
        symx_world::world().connectFails = true;
    guarded(e, [&] {
        Bus b(false);
        auto note = [&e](const char* what, const M::Base& m) {
            e.add(what);
            e.add(m.getHeaderMember());
            e.add(m.getHeaderPath());
            e.add(m.getHeaderSender());
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                e.add(DBus::Type::getMarshallingSignature(m.getParameter(i)));
            if (m.getParameterCount() && DBus::Type::getMarshallingSignature(m.getParameter(0)) == "s")
                e.add(DBus::Type::asString(m.getParameter(0)));
        };
        bool throws = x.kind == 6;
        b.n->registerMethodCallHandler("i." + x.t, [&](const M::MethodCall& m) {
            note("call", m);
            if (throws)
                throw std::runtime_error(x.u);
        });
        b.n->registerSignalHandler("i." + x.t, [&](const M::Signal& m) {
            note("signal", m);
            if (throws)
                throw std::runtime_error(x.u);
        });
        b.n->BeginAuth(x.fd ? DBus::AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD : DBus::AuthenticationProtocol::AUTH_BASIC);
        if (x.kind == 0) { // texts in the lines of the authentication
            static const char* const lines[] = { "REJECTED ", "ERROR ", "DATA ", "OK ", "AGREE_UNIX_FD ", "" };
            b.say(lines[x.n % 6] + x.t + "\r\n" + x.u);
        }
        b.say("OK " + (login ? x.t : "0123") + "\r\n");
        if (x.fd)
            b.say("AGREE_UNIX_FD\r\n");
        auto call = [&](const std::string& dest, const std::string& arg) {
            M::MethodCall m(M::MethodCallIdentifier("/" + x.t, "i", x.u), M::MethodCallParametersIn(arg));
            b.n->sendMethodCall(
                dest, m, [&](const M::MethodReturn& r) { note("return", r); throws ? throw std::runtime_error(x.u) : 0; },
                [&](const M::Error& r) { note("error", r); e.add(r.getMessage()); throws ? throw std::runtime_error(x.u) : 0; });
            return m.getSerial();
        };
        Val v;
        v.sig = "s";
        v.str = x.u;
        switch (x.kind) {
        case 1: // a call and a signal with these names
        case 6: // and handlers that throw
            for (bool s : { false, true }) {
                Msg m = s ? aSignal("/" + x.u, "i", x.t) : aCall("/" + x.u, "i", x.t);
                m.field(SENDER, x.u);
                m.body.push_back(v);
                b.say(m.wire());
            }
            break;
        case 2: // answers to a call
        case 3: { // and to none
            uint32_t to = call(x.t, x.u);
            for (bool err : { (bool)(x.n & 1), true }) {
                Msg m = aReply(err, x.kind == 2 ? to : x.n);
                m.body.push_back(v);
                b.say(m.wire());
            }
            break;
        }
        case 4: { // everything that can be sent
            M::Signal s(M::MethodCallIdentifier("/" + x.t, "i", x.u));
            s.addParameter(DBus::Type::String(x.u));
            b.n->sendSignal(x.t, s);
            b.n->broadcastSignal(s);
            M::MethodReturn r(x.n);
            r.addParameter(DBus::Type::ObjectPath(x.u));
            b.n->sendMethodReturn(x.t, r);
            b.n->sendError(x.t, M::Error(x.n, "e." + x.u, x.u));
            b.n->callNameHasOwner(x.t, [](const M::MethodReturn&) {}, [](const M::Error&) {});
            break;
        }
        case 5: { // messages that are not well-formed, and one that is
            std::string f("\x08\x01g\0", 4);
            f.push_back((char)x.t.size());
            b.say(Msg::frame(SIGNAL, false, 0, 9, f + x.t + std::string(1, '\0'), x.u));
            b.say(Msg::frame((uint8_t)x.n, false, 0, 9, std::string(), ""));
            b.say(aSignal("/" + x.u, "i", x.t).wire());
            break;
        }
        case 7: // match rules
            guarded(e, [&] { b.n->callAddMatch("member='" + x.t + "'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal& s) { note("rule", s); }); });
            guarded(e, [&] { b.n->callAddMatch(x.t + "=" + x.u, [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal& s) { note("rule", s); }); });
            b.say(aSignal("/" + x.u, "i", x.t).wire());
            b.n->callRemoveMatch("member='" + x.t + "'");
            b.n->callRemoveMatch(x.u);
            break;
        case 8: // the connection breaks while it reads and is written to
            b.say(aCall("/p", "i", x.t).wire());
            b.w.peerFails(x.n % 200 + 1);
            b.w.writesFail(32);
            b.w.pump();
            guarded(e, [&] { call(x.t, x.u); });
            b.w.pump();
            break;
        case 9: // types and descriptions of that text
            guarded(e, [&] { e.add(DBus::Type::getMarshallingSignature(DBus::Type::create(x.t))); });
            guarded(e, [&] { DBus::Type::Signature s(x.t + x.u); e.add(s.asString()); });
            guarded(e, [&] { e.add(DBus::Introspectable::Property(x.t, x.u, x.n % 4).serialize()); });
            break;
        default:;
        }
        b.w.pump();
        e.add(b.w.wire);
        e.add(b.n->getStats());
    });
    symx_world::World& w = symx_world::world();
    e.add(w.closed ? "closed" : "open");
}
}
extern "C" void same_at_every_level()
{
    Inputs x;
    x.kind = (int)symx_choice(11, "kind");
    size_t most = symx_param("maxtext", 2);
    x.t = symxString(most, "text");
    x.u = symxString(symx_choice(most + 1, "length"), "other text");
    x.n = 0;
    if (x.kind == 0)
        x.n = symx_choice(6, "line");
    else if (x.kind == 9)
        x.n = symx_choice(4, "access");
    else if (x.kind == 2 || x.kind == 3 || x.kind == 4 || x.kind == 5 || x.kind == 8)
        x.n = symx<uint32_t>("number");
    if (x.kind == 8)
        x.n = symx_choice(2, "error");
    x.fd = x.kind == 0 && symx_choice(2, "mode") == 1;
    size_t level = symx_choice(5, "level");
    Events a, b;
    history(7, x, a); // nothing is logged
    history(level, x, b);
    CHECK(a.of.size() == b.of.size(), "the same happens at every log level");
    for (size_t i = 0; i < a.of.size(); ++i)
        CHECK(same(a.of[i], b.of[i]), "the same is seen at every log level");
    symx_reach(level == 0 ? "everything logged" : "less logged");
}
