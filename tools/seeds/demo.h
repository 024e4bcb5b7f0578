// Shared by the demonstrations: a tiny test harness, a message builder and a fake bus.
#pragma once
#include "dbus.h"
#include "dbus_auth.h"
#include "dbus_log.h"
#include "dbus_matchrule.h"
#include "dbus_message.h"
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_messageprotocol.h"
#include "dbus_native.h"
#include "dbus_octetbuffer.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"
#include "dbus_utils.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>
#include <vector>
using namespace DBus;

#define EXPECT(c)                                                    \
    do {                                                             \
        if (!(c)) {                                                  \
            fprintf(stderr, "line %d: not true: %s\n", __LINE__, #c); \
            exit(1);                                                 \
        }                                                            \
    } while (0)

// little-endian messages
struct Msg {
    int kind;
    uint32_t serial;
    uint8_t flags = 0;
    std::string fields, body;
    Msg(int k, uint32_t s) : kind(k), serial(s) {}
    static void pad(std::string& s, size_t n)
    {
        while (s.size() % n)
            s.push_back(0);
    }
    static void u32(std::string& s, uint32_t v)
    {
        pad(s, 4);
        for (int i = 0; i < 4; ++i)
            s.push_back((char)(v >> (8 * i)));
    }
    static void str(std::string& s, const std::string& v)
    {
        u32(s, v.size());
        s += v;
        s.push_back(0);
    }
    static void sig(std::string& s, const std::string& v)
    {
        s.push_back((char)v.size());
        s += v;
        s.push_back(0);
    }
    Msg& field(int code, const std::string& type, const std::string& v)
    {
        pad(fields, 8);
        fields.push_back((char)code);
        sig(fields, type);
        if (type == "g")
            sig(fields, v);
        else
            str(fields, v);
        return *this;
    }
    Msg& reply(uint32_t v)
    {
        pad(fields, 8);
        fields.push_back(5);
        sig(fields, "u");
        u32(fields, v);
        return *this;
    }
    Msg& text(const std::string& v)
    {
        field(8, "g", "s");
        str(body, v);
        return *this;
    }
    std::string wire() const
    {
        std::string s = "l";
        s.push_back((char)kind);
        s.push_back((char)flags);
        s.push_back(1);
        u32(s, body.size());
        u32(s, serial);
        u32(s, fields.size());
        s += fields;
        pad(s, 8);
        return s + body;
    }
};
inline Msg callTo(const std::string& path, const std::string& ifc, const std::string& member, uint32_t serial = 9)
{
    return Msg(1, serial).field(1, "o", path).field(2, "s", ifc).field(3, "s", member);
}
inline Msg signalOf(const std::string& path, const std::string& ifc, const std::string& member, uint32_t serial = 9)
{
    return Msg(4, serial).field(1, "o", path).field(2, "s", ifc).field(3, "s", member);
}
inline Msg returnFor(uint32_t to, uint32_t serial = 9) { return Msg(2, serial).reply(to); }
inline Msg errorFor(uint32_t to, uint32_t serial = 9) { return Msg(3, serial).reply(to).field(4, "s", "a.b"); }

inline void feed(MessageProtocol& p, const std::string& s)
{
    std::vector<uint8_t> v(s.begin(), s.end());
    OctetBuffer b(v.data(), v.size());
    p.onReceiveData(b);
}
inline uint32_t u32at(const std::string& s, size_t at)
{
    uint32_t v = 0;
    for (int i = 3; i >= 0; --i)
        v = v << 8 | (uint8_t)s[at + i];
    return v;
}
// how many complete messages `s` is made of, or -1
inline int messagesIn(const std::string& s)
{
    int n = 0;
    for (size_t at = 0; at < s.size(); ++n) {
        if (s.size() - at < 16 || s[at] != 'l' || s[at + 3] != 1)
            return -1;
        at += 16 + (u32at(s, at + 12) + 7) / 8 * 8 + u32at(s, at + 4);
        if (at > s.size())
            return -1;
    }
    return n;
}

// A bus with one client, on a socket in $TMPDIR
struct FakeBus {
    std::string path;
    int l = -1, fd = -1;
    FakeBus()
    {
        static int n = 0;
        path = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : ".") + "/bus" + std::to_string(n++);
        l = socket(AF_UNIX, SOCK_STREAM, 0);
        sockaddr_un a = {};
        a.sun_family = AF_UNIX;
        strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        EXPECT(bind(l, (sockaddr*)&a, sizeof a) == 0);
        EXPECT(listen(l, 4) == 0);
    }
    ~FakeBus()
    {
        close(fd);
        close(l);
    }
    void accept()
    {
        fd = ::accept(l, nullptr, nullptr);
        EXPECT(fd >= 0);
    }
    void send(const std::string& s)
    {
        size_t at = 0;
        while (at < s.size()) {
            ssize_t n = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n <= 0)
                return;
            at += n;
        }
    }
    // what arrives until `done` or nothing came for a while
    std::string read(std::function<bool(const std::string&)> done, int ms = 8000)
    {
        std::string s;
        char b[65536];
        for (;;) {
            if (done(s))
                return s;
            pollfd p = { fd, POLLIN, 0 };
            if (poll(&p, 1, ms) <= 0)
                return s;
            ssize_t n = ::read(fd, b, sizeof b);
            if (n <= 0)
                return s;
            s.append(b, n);
        }
    }
    std::string readUntil(const std::string& end, int ms = 8000)
    {
        return read([&](const std::string& s) { return s.size() >= end.size() && s.compare(s.size() - end.size(), end.size(), end) == 0; }, ms);
    }
    std::string readBytes(size_t n, int ms = 8000)
    {
        return read([&](const std::string& s) { return s.size() >= n; }, ms);
    }
    // messages that arrive, once there are `n`
    std::string readMessages(int n, int ms = 8000)
    {
        return read([&](const std::string& s) { return messagesIn(s) >= n; }, ms);
    }
    std::string quiet(int ms = 300)
    {
        return read([](const std::string&) { return false; }, ms);
    }
    // authenticates the client in basic mode
    void login(Native& n)
    {
        accept();
        n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
        readUntil("\r\n");
        send("OK 0123456789abcdef\r\n");
        EXPECT(readUntil("BEGIN\r\n") == "BEGIN\r\n");
    }
};
inline bool eventually(std::function<bool()> f, int ms = 8000)
{
    for (int i = 0; i < ms; i += 5) {
        if (f())
            return true;
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
    return f();
}
inline void settle(int ms = 200) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
