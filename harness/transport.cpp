// C18, C19: what reaches the socket
#include "bus.h"
#include "threads.h"
using namespace ref;
namespace M = DBus::Message;
typedef DBus::AuthenticationProtocol Auth;

static const std::string NUL(1, '\0');

// ------------------------------------------------------------------------------------------ C19
// one thread, several messages outstanding, the kernel takes what it likes
extern "C" void partial_writes()
{
    symx_world::World& w = symx_world::world();
    w.inlineThreads = true;
    w.partialWrites = (int)symx_param("partial", 2);
    DBus::Transport t("/bus");
    t.onAuthComplete();
    std::string want = NUL;
    size_t n = symx_param("messages", 3);
    for (size_t i = 0; i < n; ++i) {
        std::string m = symxString(symx_choice(symx_param("maxlen", 3), "length") + 1, "message");
        want += m;
        t.sendString(m);
        m.assign(m.size(), 'x'); // the caller's copy does not matter any more
        if (i + 1 < n && symx_choice(2, "pump"))
            w.ctx->poll_one();
    }
    w.pump();
    CHECK(same(w.wire, want), "the messages, each complete and contiguous, in the order submitted");
    symx_reach("done");
}
// messages arrive while others are being written, and what is received is unaffected
extern "C" void writes_and_reads()
{
    symx_world::World& w = symx_world::world();
    w.inlineThreads = true;
    w.partialWrites = (int)symx_param("partial", 2);
    w.partialReads = (int)symx_param("partialReads", 1);
    DBus::Transport t("/bus");
    t.onAuthComplete();
    std::string want = NUL, heard;
    t.setDataHandler([&](DBus::OctetBuffer& b) {
        std::string got((const char*)b.data(), b.size());
        heard += got;
        std::string answer = got + got; // answered from the handler
        want += answer;
        t.sendString(answer);
    });
    std::string in = symxString(symx_param("bytes", 3), "in");
    w.peerSends(in);
    std::string m = symxString(2, "message");
    want += m;
    t.sendString(m);
    w.pump();
    CHECK(same(heard, in), "everything the peer sends is received once, in order");
    CHECK(same(w.wire, want), "the messages, each complete and contiguous, in the order submitted");
    symx_reach("done");
}
// whole writes fail
extern "C" void failed_writes()
{
    symx_world::World& w = symx_world::world();
    w.inlineThreads = true;
    w.partialWrites = (int)symx_param("partial", 1);
    std::string want = NUL;
    {
        DBus::Transport t("/bus");
        t.onAuthComplete();
        size_t n = symx_param("messages", 3), fail = symx_choice(n + 1, "fails");
        for (size_t i = 0; i < n; ++i) {
            if (i == fail)
                w.writesFail(EPIPE);
            std::string m = symxString(2, "message");
            want += m;
            t.sendString(m);
            if (symx_choice(2, "pump"))
                w.ctx->poll_one();
        }
    }
    CHECK(w.wire.size() <= want.size() && same(w.wire, want.substr(0, w.wire.size())), "what reaches the socket is a part of the messages in order");
    symx_reach(w.wire.size() == want.size() ? "all" : "part");
}
namespace {
std::string msgOf(size_t thread, size_t i, size_t len)
{
    std::string m(len, (char)('a' + thread));
    m[0] = (char)('A' + thread);
    if (len > 1)
        m[len - 1] = (char)('0' + i);
    return m;
}
// `s` is made up of the threads' messages, each complete, each thread's in order
void expectInterleaving(std::string s, size_t threads, size_t each, size_t len)
{
    std::vector<size_t> next(threads, 0);
    while (!s.empty()) {
        bool hit = false;
        for (size_t t = 0; t < threads && !hit; ++t) {
            if (next[t] >= each)
                continue;
            std::string m = msgOf(t, next[t], len);
            if (s.compare(0, m.size(), m) == 0) {
                hit = true;
                ++next[t];
                s.erase(0, m.size());
            }
        }
        CHECK(hit, "complete messages, each thread's in its order");
        if (!hit)
            return;
    }
    for (size_t t = 0; t < threads; ++t)
        CHECK(next[t] == each, "every message once");
}
}
// several threads send, the I/O thread completes partial writes
extern "C" void writers()
{
    symx_world::World& w = symx_world::world();
    size_t threads = symx_param("threads", 2), each = symx_param("each", 1), len = symx_param("len", 2);
    symx_nopreempt(1);
    w.partialWrites = (int)symx_param("partial", 1);
    {
        DBus::Transport t("/bus");
        t.onAuthComplete();
        w.awaitWire(1);
        symx_nopreempt(0);
        Threads ts;
        for (size_t k = 0; k < threads; ++k)
            ts.go([&, k] {
                for (size_t i = 0; i < each; ++i)
                    t.sendString(msgOf(k, i, len));
            });
        ts.join();
        w.awaitWire(1 + threads * each * len);
        symx_nopreempt(1);
    }
    expectInterleaving(w.wire.substr(1), threads, each, len);
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C18
// messages before, during and after authentication
extern "C" void queue_history()
{
    bool fd = symx_choice(2, "fd");
    Bus b(false);
    b.w.partialWrites = (int)symx_param("partial", 0);
    size_t n = symx_param("messages", 3);
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    std::string queued, auth = NUL, later;
    size_t stage = 0, stages = fd ? 4 : 3;
    size_t sentBefore = 0;
    auto send = [&](size_t i) {
        std::string wire;
        switch (i % 4) {
        case 0: {
            M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"), M::MethodCallParametersIn(symxString(1, "text")));
            wire = m.marshall("d");
            b.n->sendMethodCall("d", m);
            break;
        }
        case 1: {
            M::Signal m(M::MethodCallIdentifier("/o", "i", "m"));
            m.addParameter(DBus::Type::Uint32(symx<uint32_t>("number")));
            wire = m.marshall("");
            b.n->broadcastSignal(m);
            break;
        }
        case 2: {
            M::MethodReturn m(symx<uint32_t>("reply"));
            wire = m.marshall("d");
            b.n->sendMethodReturn("d", m);
            break;
        }
        default: {
            M::Error m(symx<uint32_t>("reply"), "a.b", symxString(1, "text"));
            wire = m.marshall("d");
            b.n->sendError("d", m);
        }
        }
        (stage >= stages ? later : queued) += wire;
    };
    size_t left = n;
    while (stage <= stages) {
        size_t k = stage == stages ? left : symx_choice(left + 1, "send");
        for (size_t i = 0; i < k; ++i)
            send(n - left + i);
        left -= k;
        sentBefore += stage < stages ? k : 0;
        b.w.pump();
        if (stage < stages)
            CHECK(same(b.w.wire, auth), "before BEGIN, nothing but the credentials byte and authentication lines");
        switch (fd || stage < 2 ? stage : stage + 1) {
        case 0:
            b.n->BeginAuth(fd ? Auth::AUTH_NEGOTIATE_UNIX_FD : Auth::AUTH_BASIC);
            auth += authLine();
            break;
        case 1:
            if (symx_choice(2, "rejected"))
                b.say("REJECTED EXTERNAL\r\n");
            b.say("OK 01");
            break;
        case 2:
            b.say("\r\n");
            auth += "NEGOTIATE_UNIX_FD\r\n";
            break;
        case 3:
            b.say(fd ? "AGREE_UNIX_FD\r\n" : "\r\n");
            auth += "BEGIN\r\n";
            break;
        }
        ++stage;
    }
    b.w.pump();
    CHECK(same(b.w.wire, auth + queued + later), "then the messages queued, then those sent later, in order, each once, unaltered");
    symx_reach(sentBefore ? "queued" : "direct");
}
// threads submit while the I/O thread completes authentication
extern "C" void auth_threads()
{
    symx_world::World& w = symx_world::world();
    size_t threads = symx_param("threads", 1), each = symx_param("each", 2), first = symx_param("first", 1), len = 3;
    symx_nopreempt(1);
    w.partialWrites = (int)symx_param("partial", 0);
    std::string before;
    {
        auto t = std::make_shared<DBus::Transport>("/bus");
        Auth a(t);
        t->setDataHandler([&](DBus::OctetBuffer& b) { a.onReceiveData(b); });
        a.sendAuth(Auth::AUTH_BASIC);
        for (size_t i = 0; i < first; ++i) {
            t->sendString(msgOf(9, i, len));
            before += msgOf(9, i, len);
        }
        w.awaitWire(1 + authLine().size());
        symx_nopreempt(0);
        Threads ts;
        for (size_t k = 0; k < threads; ++k)
            ts.go([&, k] {
                for (size_t i = 0; i < each; ++i)
                    t->sendString(msgOf(k, i, len));
            });
        w.peerSends("OK 01\r\n");
        ts.join();
        w.awaitWire(1 + authLine().size() + 7 + before.size() + threads * each * len);
        symx_nopreempt(1);
        t->setDataHandler([](DBus::OctetBuffer&) {});
    }
    std::string head = NUL + authLine() + "BEGIN\r\n" + before;
    CHECK(w.wire.substr(0, head.size()) == head, "authentication, then what was submitted first");
    expectInterleaving(w.wire.substr(head.size()), threads, each, len);
    symx_reach("done");
}
