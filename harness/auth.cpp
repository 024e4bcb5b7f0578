// C17: the authentication handshake
#include "bus.h"
#include <unistd.h>
using namespace ref;
namespace M = DBus::Message;
typedef DBus::AuthenticationProtocol Auth;

static unsigned theUid = 1000;
extern "C" uid_t getuid() noexcept { return theUid; }

namespace {
// what the client has to do on what the server sends
struct Model {
    bool fd;
    int state = 0; // 0 awaits OK, 1 awaits AGREE_UNIX_FD, 2 authenticated
    std::string line, rest, out;
    void byte(char c)
    {
        if (state == 2) {
            rest.push_back(c);
            return;
        }
        line.push_back(c);
        size_t n = line.size();
        if (n < 2 || line[n - 2] != '\r' || line[n - 1] != '\n')
            return;
        line.resize(n - 2);
        size_t w = 0;
        while (w < line.size() && line[w] != ' ')
            ++w;
        bool ok = w == 2 && same(line.substr(0, w), "OK"), agree = w == 13 && same(line.substr(0, w), "AGREE_UNIX_FD");
        line.clear();
        if (state == 0 && ok) {
            out += fd ? "NEGOTIATE_UNIX_FD\r\n" : "BEGIN\r\n";
            state = fd ? 1 : 2;
        } else if (state == 1 && agree) {
            out += "BEGIN\r\n";
            state = 2;
        }
    }
    void feed(const std::string& s)
    {
        for (char c : s)
            byte(c);
    }
};
struct Client {
    Bus b;
    Model m;
    std::string start;
    std::vector<Got> got;
    explicit Client(bool fd)
        : b(false)
    {
        m.fd = fd;
        b.n->registerMethodCallHandler("i.m", [this](const M::MethodCall& c) { got.push_back(take(c)); });
        start = std::string(1, '\0') + authLine();
        CHECK(b.w.wire == "" || b.w.wire == std::string(1, '\0'), "nothing but the credentials byte before authentication");
        b.n->BeginAuth(fd ? Auth::AUTH_NEGOTIATE_UNIX_FD : Auth::AUTH_BASIC);
        b.w.pump();
        CHECK(same(b.w.wire, start), "credentials byte and AUTH EXTERNAL with the hexadecimal user id");
    }
    void say(const std::string& s)
    {
        m.feed(s);
        b.say(s);
        CHECK(same(b.w.wire, start + m.out), "exactly the commands that the protocol calls for");
    }
    void sayIn(const std::string& s, size_t reads)
    {
        size_t at = 0;
        for (size_t i = 1; i < reads && at < s.size(); ++i) {
            size_t k = symx_choice(s.size() - at + 1, "cut");
            if (k)
                say(s.substr(at, k));
            at += k;
        }
        if (at < s.size())
            say(s.substr(at));
    }
    // messages work if authentication is complete, and only then
    void finish()
    {
        if (m.state != 2)
            return;
        CHECK(m.rest.empty(), "harness");
        Msg c = aCall("/p", "i", "m");
        c.serial = symx<uint32_t>("serial");
        say(c.wire());
        CHECK(got.size() == 1, "messages are received after authentication");
        expectGot(got[0], c);
    }
    const char* reach() const { return m.state == 2 ? "authenticated" : "not authenticated"; }
};
}
// any bytes from the server, in up to two reads
extern "C" void server_arbitrary()
{
    bool fd = symx_choice(2, "fd");
    Client c(fd);
    size_t before = symx_choice(3, "before");
    if (before == 1)
        c.say("REJECTED EXTERNAL\r\n");
    if (before == 2)
        c.say("OK 0123456789abcdef\r\n");
    if (c.m.state == 2)
        symx_end();
    size_t n = symx_choice(symx_param("maxlen", 5) + 1, "length");
    std::string s = symxString(n, "server");
    c.sayIn(s, symx_param("reads", 2));
    symx_reach(c.reach());
}
// sequences of lines, the known commands with anything behind or around them, cut anywhere
extern "C" void server_lines()
{
    bool fd = symx_choice(2, "fd");
    Client c(fd);
    static const char* const lines[] = { "OK", "OK 0123456789abcdef", "AGREE_UNIX_FD", "REJECTED EXTERNAL ANONYMOUS", "ERROR", "ERROR \"Unknown\"", "DATA 00", "OKAY", "OK_", "AGREE_UNIX_FDS", "", " OK 1", "ok 1", "NEGOTIATE_UNIX_FD", "BEGIN", "OK zz", "D", "CANCEL", "AUTH", "agree_unix_fd" };
    size_t count = symx_param("lines", 2), kinds = symx_param("kinds", sizeof lines / sizeof *lines);
    std::string s;
    for (size_t i = 0; i < count; ++i) {
        s += lines[symx_choice(kinds, "line")];
        if (i == 0 && symx_param("tail", 1)) {
            size_t t = symx_choice(symx_param("tail", 1) + 1, "tail length");
            s += symxString(t, "tail");
        }
        s += "\r\n";
    }
    size_t reads = symx_param("reads", 1);
    c.sayIn(s, reads);
    if (c.m.state == 2 && c.m.rest.empty())
        c.finish();
    symx_reach(c.reach());
}
// messages behind the last line, cut anywhere
extern "C" void messages_behind()
{
    bool fd = symx_choice(2, "fd");
    Client c(fd);
    std::string s = "OK 01\r\n";
    if (fd)
        s += "AGREE_UNIX_FD\r\n";
    Msg a = aCall("/p", "i", "m"), b = aCall("/q", "i", "m");
    a.serial = symx<uint32_t>("serial");
    b.serial = symx<uint32_t>("serial");
    Val v;
    v.sig = "s";
    v.str = symxString(2, "text");
    a.body.push_back(v);
    s += a.wire();
    size_t first = s.size();
    s += b.wire();
    size_t reads = symx_param("reads", 2);
    size_t at = 0;
    for (size_t i = 1; i <= reads && at < s.size(); ++i) {
        size_t k = i == reads ? s.size() - at : symx_choice(s.size() - at + 1, "cut");
        at += k;
        if (k)
            c.say(s.substr(at - k, k));
        CHECK(c.got.size() == (at >= s.size() ? 2u : at >= first ? 1u : 0u), "messages behind the final line are received as soon as they are complete");
    }
    expectGot(c.got[0], a);
    expectGot(c.got[1], b);
    symx_reach("done");
}
// the user id in the AUTH line
extern "C" void user_id()
{
    symx_opaque_numbers(0);
    static const unsigned ids[] = { 0, 7, 10, 99, 100, 1000, 65534, 999999999, 1000000000, 2147483648u, 4294967294u };
    size_t k = symx_choice(sizeof ids / sizeof *ids + 1, "id");
    std::string digits;
    if (k) {
        theUid = ids[k - 1];
        unsigned v = theUid;
        do {
            digits.insert(digits.begin(), (char)('0' + v % 10));
            v /= 10;
        } while (v);
    } else {
        // every number of up to four digits
        size_t n = 1 + symx_choice(symx_param("digits", 3), "digits");
        uint32_t v = 0;
        for (size_t i = 0; i < n; ++i) {
            uint8_t d = symx<uint8_t>("digit");
            ASSUME(d <= 9 && (d > 0 || i > 0 || n == 1));
            digits.push_back((char)('0' + d));
            v = v * 10 + d;
        }
        theUid = v;
    }
    symx_world::World& w = symx_world::world();
    w.inlineThreads = true;
    DBus::Native n("/bus");
    n.BeginAuth(symx_choice(2, "fd") ? Auth::AUTH_NEGOTIATE_UNIX_FD : Auth::AUTH_BASIC);
    w.pump();
    CHECK(same(w.wire, std::string(1, '\0') + "AUTH EXTERNAL " + hexOf(digits) + "\r\n"), "the user id in decimal digits, in hexadecimal");
    symx_reach("done");
}
// the path given to the connection is the one that is connected to
extern "C" void socket_name()
{
    symx_world::World& w = symx_world::world();
    w.inlineThreads = true;
    size_t n = 1 + symx_choice(symx_param("maxlen", 8), "length");
    std::string path = symxString(n, "path");
    w.connectFails = symx_choice(2, "fails");
    bool threw = false;
    try {
        DBus::Native c(path);
        CHECK(same(w.connectedTo, path), "the socket that was named");
        w.pump();
        CHECK(w.wire == std::string(1, '\0'), "the credentials byte, once, and nothing else");
    } catch (const std::exception&) {
        threw = true;
    }
    CHECK(threw == w.connectFails, "a connection that fails throws");
    CHECK(w.wire.size() == (threw ? 0u : 1u), "nothing is sent when it is closed");
    symx_reach(threw ? "failed" : "connected");
}
