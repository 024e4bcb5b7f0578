// A connection whose I/O thread is run by the harness (pump), or by real threads, against the modelled bus.
#pragma once
#include "dbus_native.h"
#include "dbus_platform.h"
#include "msg.h"
#include <boost/asio.hpp>
#include <memory>
#include <stdexcept>

namespace ref {
inline std::string hexOf(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        r.push_back("0123456789abcdef"[c >> 4]);
        r.push_back("0123456789abcdef"[c & 15]);
    }
    return r;
}
inline std::string authLine() { return "AUTH EXTERNAL " + hexOf(std::to_string(DBus::Platform::getUID())) + "\r\n"; }

struct Bus {
    symx_world::World& w;
    std::unique_ptr<DBus::Native> n;
    size_t seen = 0; // how much of what the peer received has been looked at
    // with `ready`, the connection is authenticated
    explicit Bus(bool ready = true, bool inl = true)
        : w(symx_world::world())
    {
        w.inlineThreads = inl;
        symx_opaque_numbers(1);
        n.reset(new DBus::Native("/bus"));
        if (ready)
            login();
    }
    void login()
    {
        n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
        say("OK 0123\r\n");
        CHECK(w.wire == std::string(1, '\0') + authLine() + "BEGIN\r\n", "authentication");
        seen = w.wire.size();
    }
    // bytes arrive from the peer and are handled
    void say(const std::string& s)
    {
        w.peerSends(s);
        w.pump();
    }
    // the messages that the peer received since the last call
    std::vector<Msg> sent()
    {
        w.pump();
        std::vector<Msg> r;
        while (seen < w.wire.size()) {
            size_t used;
            r.push_back(parse(w.wire.substr(seen), &used));
            seen += used;
        }
        return r;
    }
};

inline Msg aCall(const std::string& path, const std::string& ifc, const std::string& member, uint32_t serial = 77)
{
    Msg m;
    m.kind = CALL;
    m.serial = serial;
    m.field(PATH, path);
    m.field(INTERFACE, ifc);
    m.field(MEMBER, member);
    return m;
}
inline Msg aSignal(const std::string& path, const std::string& ifc, const std::string& member, uint32_t serial = 78)
{
    Msg m = aCall(path, ifc, member, serial);
    m.kind = SIGNAL;
    return m;
}
inline Msg aReply(bool error, uint32_t to, uint32_t serial = 79)
{
    Msg m;
    m.kind = error ? ERROR_ : RETURN;
    m.serial = serial;
    m.reply(to);
    if (error)
        m.field(ERROR_NAME, "a.b");
    return m;
}
} // namespace ref
