// C20, C31 (and C13, C14, C28 under concurrency): connections with their I/O thread running
#include "bus.h"
#include "threads.h"
using namespace ref;
namespace M = DBus::Message;
typedef DBus::AuthenticationProtocol Auth;

static const std::string NUL(1, '\0');
namespace {
// A connection with its I/O thread
struct Live {
    symx_world::World& w;
    std::unique_ptr<DBus::Native> n;
    Live()
        : w(symx_world::world())
    {
        symx_opaque_numbers(1);
        n.reset(new DBus::Native("/bus"));
    }
    size_t head() const { return 1 + authLine().size() + 7; }
    void begin()
    {
        n->BeginAuth(Auth::AUTH_BASIC);
        w.awaitWire(1 + authLine().size());
    }
    void login()
    {
        begin();
        w.peerSends("OK 01\r\n");
        w.awaitWire(head());
        w.awaitIdle();
    }
    // the messages that the peer received after the authentication
    struct Sent {
        int kind;
        uint32_t serial;
    };
    std::vector<Sent> sent() const
    {
        std::vector<Sent> r;
        const std::string& s = w.wire;
        auto num = [&](size_t at) { return (uint32_t)(uint8_t)s[at] | (uint32_t)(uint8_t)s[at + 1] << 8 | (uint32_t)(uint8_t)s[at + 2] << 16 | (uint32_t)(uint8_t)s[at + 3] << 24; };
        size_t at = head();
        while (at + 16 <= s.size() && s[at] == 'l' && s[at + 3] == 1) {
            r.push_back({ s[at + 1], num(at + 8) });
            at += 16 + (num(at + 12) + 7) / 8 * 8 + num(at + 4);
        }
        CHECK(at == s.size(), "complete messages");
        return r;
    }
};
}

// ------------------------------------------------------------------------------------------ C20
// destroyed at any moment while the peer does something
extern "C" void close_anytime()
{
    symx_nopreempt(1);
    size_t stages = symx_param("stages", 3), acts = symx_param("acts", 9);
    size_t stage = symx_choice(stages, "stage"), act = symx_choice(acts, "act");
    auto gone = std::make_shared<bool>(false);
    auto heard = std::make_shared<int>(0);
    {
        Live l;
        l.w.partialWrites = 0;
        DBus::Native* n = l.n.get();
        auto hear = [gone, heard] {
            CHECK(!*gone, "no handler runs once the connection is destroyed");
            ++*heard;
        };
        n->registerSignalHandler("i.s", [=](const M::Signal&) { hear(); });
        n->registerSignalHandler("i.t", [=](const M::Signal&) {
            hear();
            n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "r")));
            hear();
        });
        n->registerMethodCallHandler("i.m", [=](const M::MethodCall& m) {
            hear();
            n->sendMethodReturn("d", M::MethodReturn(m.getSerial()));
            hear();
        });
        uint32_t serial = 0;
        if (stage >= 1)
            l.begin();
        if (stage >= 2) {
            l.w.peerSends("OK 01\r\n");
            l.w.awaitWire(l.head());
            l.w.awaitIdle();
        }
        if (act == 7) {
            l.w.partialWrites = 1;
            M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"));
            serial = m.getSerial();
            n->sendMethodCall("d", m, [=](const M::MethodReturn&) { hear(); }, [=](const M::Error&) { hear(); });
        }
        symx_nopreempt(0);
        auto doAct = [&](size_t act) {
            switch (act) {
            case 0:
                break;
            case 1:
                l.w.peerCloses();
                break;
            case 2:
                l.w.peerFails(ECONNRESET);
                break;
            case 3:
                l.w.peerSends(stage == 0 ? "REJECTED\r\n" : stage == 1 ? "OK 01\r\n"
                                                                       : aSignal("/o", "i", "s").wire());
                break;
            case 4:
                l.w.peerSends(stage == 1 ? "OK 01\r\n" + aSignal("/o", "i", "t").wire() : aSignal("/o", "i", "t").wire());
                break;
            case 5:
                l.w.partial(0, 1);
                l.w.peerSends(aCall("/o", "i", "m").wire());
                break;
            case 6:
                l.w.partial(1, 0);
                n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "x")));
                break;
            case 7:
                l.w.peerSends(aReply(false, serial).wire());
                break;
            case 8: // written in part or not at all, and the peer reads no more
                l.w.peerStopsReading();
                n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "x")));
                n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "x")));
                break;
            }
        };
        doAct(act);
        for (size_t k = symx_param("more", 0); k > 0; --k)
            doAct(symx_choice(7, "act"));
        l.n.reset();
        *gone = true;
    }
    symx_reach(*heard ? "handled" : "unhandled");
    if (stage == 0)
        symx_reach("early");
}

// ------------------------------------------------------------------------------------------ C31
// pairs of operations, one per thread, while messages arrive
namespace {
struct Ops {
    Live& l;
    int a = 0, b = 0; // how often the handlers ran (on the I/O thread)
    std::mutex mx;
    std::vector<uint32_t> serials;
    explicit Ops(Live& live)
        : l(live)
    {
    }
    void go(int op)
    {
        DBus::Native& n = *l.n;
        M::MethodCallIdentifier id("/o", "i", "x");
        switch (op) {
        case 0:
            n.registerSignalHandler("i.s", [this](const M::Signal&) { ++a; });
            break;
        case 1:
            n.unRegisterSignalHandler("i.h");
            break;
        case 2:
            n.registerMethodCallHandler("i.n", [this](const M::MethodCall&) { ++b; });
            break;
        case 3:
            n.unRegisterMethodCallHandler("i.m");
            break;
        case 4:
            n.callAddMatch("member='s'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [this](const M::Signal&) { ++a; });
            break;
        case 5:
            n.callRemoveMatch("member='h'");
            break;
        case 6: {
            M::MethodCall m(id);
            {
                std::lock_guard<std::mutex> g(mx);
                serials.push_back(m.getSerial());
            }
            n.sendMethodCall("d", m, [this](const M::MethodReturn&) { ++b; });
            break;
        }
        case 7:
            n.sendMethodReturn("d", M::MethodReturn(5));
            break;
        case 8:
            n.sendError("d", M::Error(5, "a.b", ""));
            break;
        case 9:
            n.broadcastSignal(M::Signal(id));
            break;
        case 10:
            CHECK(n.getStats().size() > 0, "statistics");
            break;
        }
    }
    static std::string serialBytes(uint32_t n)
    {
        std::string s;
        for (int i = 0; i < 4; ++i)
            s.push_back((char)(n >> (8 * i)));
        return s;
    }
    static int sends(int op) { return op >= 4 && op <= 9; }
};
}
extern "C" void pairs()
{
    symx_nopreempt(1);
    int first = (int)symx_choice(11, "first"), second = (int)symx_choice(11, "second");
    // inside: the second operation is made by a handler, not by a thread of its own
    bool inside = symx_param("inside", 0), ran = !inside;
    int arrive, place = 0;
    if (inside) {
        place = 1 + (int)symx_choice(4, "place"); // handler of a signal, a call, a reply; of a rule
        arrive = place == 4 ? 1 : place;
    } else {
        symx_assume(first <= second);
        arrive = (int)symx_choice(symx_param("arrive", 4), "arrives");
    }
    {
        Live l;
        Ops o(l);
        auto here = [&](int p) {
            if (place == p && !ran) {
                ran = true;
                o.go(second);
            }
        };
        int h = 0, m = 0, r = 0;
        l.n->registerSignalHandler("i.h", [&](const M::Signal&) {
            ++h;
            here(1);
        });
        l.n->registerMethodCallHandler("i.m", [&](const M::MethodCall& c) {
            ++m;
            if (inside)
                return here(2);
            l.n->sendMethodReturn("d", M::MethodReturn(c.getSerial()));
        });
        l.login();
        M::MethodCall call(M::MethodCallIdentifier("/o", "i", "y"));
        size_t was = 0;
        l.n->callAddMatch("member='h'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal&) {
            ++r;
            here(4); });
        int answered = 0;
        l.n->sendMethodCall("d", call, [&](const M::MethodReturn&) {
            ++answered;
            if (inside)
                return here(3);
            l.n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "z")));
        });
        l.w.awaitIdle();
        was = l.sent().size();
        CHECK(was == 2, "sent so far");
        const std::string sigH = aSignal("/o", "i", "h").wire(), sigS = aSignal("/o", "i", "s").wire(), callM = aCall("/o", "i", "m").wire(), callN = aCall("/o", "i", "n").wire(), answer = aReply(false, call.getSerial()).wire();
        symx_nopreempt(0);
        Threads ts;
        ts.go([&] { o.go(first); });
        if (!inside)
            ts.go([&] { o.go(second); });
        switch (arrive) {
        case 0:
            break;
        case 1:
            l.w.peerSends(sigH);
            break;
        case 2:
            l.w.peerSends(callM);
            break;
        case 3:
            l.w.peerSends(answer);
            break;
        }
        ts.join();
        symx_nopreempt(1);
        l.w.awaitIdle();
        // what is registered and sent now
        size_t sends = Ops::sends(first) + (ran ? Ops::sends(second) : 0);
        auto did = [&](int op) { return (first == op) + (ran && second == op); };
        switch (arrive) {
        case 1:
            CHECK(h == 1 || (h == 0 && did(1)), "a registered handler hears the signal");
            CHECK(r == 1 || (r == 0 && did(5)), "an installed rule hears the signal");
            break;
        case 2:
            CHECK(m == 1 || (m == 0 && did(3)), "a registered handler gets the call");
            sends += inside ? 0 : m;
            break;
        case 3:
            CHECK(answered == 1, "the reply completes the call");
            sends += !inside;
            break;
        }
        // then, the registrations are those made and unmade, and the calls made are outstanding
        int ha = h, hr = r, hm = m;
        o.a = o.b = 0;
        std::string in;
        bool sSeen = did(0) || did(4), hSeen = did(1) || did(5), nSeen = did(2), mSeen = did(3);
        if (hSeen)
            in += sigH;
        if (sSeen)
            in += sigS;
        if (mSeen)
            in += callM;
        if (nSeen)
            in += callN;
        for (uint32_t serial : o.serials) {
            std::string reply = answer; // the serial replied to is in it once
            size_t p = reply.find(Ops::serialBytes(call.getSerial()), 16);
            CHECK(p != std::string::npos, "harness");
            reply.replace(p, 4, Ops::serialBytes(serial));
            in += reply + reply;
        }
        l.w.peerSends(in);
        l.w.awaitIdle();
        if (hSeen) {
            CHECK(h - ha == (did(1) ? 0 : 1), "signal handler unregistered or not");
            CHECK(r - hr == (did(5) ? 0 : 1), "rule removed or not");
        }
        if (mSeen)
            CHECK(m == hm, "method handler unregistered");
        CHECK(o.a == (did(0) ? 1 : 0) + (did(4) ? 1 : 0), "signal handler or rule registered or not");
        CHECK(o.b == (did(2) ? 1 : 0) + did(6), "method handler registered or not, each outstanding call completed once");
        auto out = l.sent();
        CHECK(out.size() == was + sends, "every message is sent once");
        std::set<uint32_t> serials;
        for (const Live::Sent& x : out)
            CHECK(serials.insert(x.serial).second, "no serial twice");
        if (did(10)) {
            std::string s = l.n->getStats();
            auto number = [&](const char* label) {
                size_t p = s.find(label);
                return p == std::string::npos ? -1 : atoi(s.c_str() + p + strlen(label) + 2);
            };
            int sentCalls = 0, sentReturns = 0, sentErrors = 0, sentSignals = 0;
            for (const Live::Sent& x : out)
                ++(x.kind == CALL ? sentCalls : x.kind == RETURN ? sentReturns
                        : x.kind == ERROR_                       ? sentErrors
                                                                 : sentSignals);
            CHECK(number("count_sent_methodcalls") == sentCalls, "calls counted");
            CHECK(number("count_sent_methodreturns") == sentReturns, "returns counted");
            CHECK(number("count_sent_errors") == sentErrors, "errors counted");
            CHECK(number("count_sent_signals") == sentSignals, "signals counted");
            CHECK(number("bytes_sent") == (int)l.w.wire.size() - 1, "bytes counted");
        }
        l.n.reset();
    }
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C13
// the peer answers a call at once, while it is still being made; calls made by several threads
extern "C" void prompt_replies()
{
    symx_nopreempt(1);
    size_t threads = 1 + symx_choice(symx_param("threads", 2), "threads");
    bool twice = symx_choice(2, "twice"), error = symx_choice(2, "error");
    {
        Live l;
        l.login();
        struct Call {
            std::unique_ptr<M::MethodCall> m;
            int ok = 0, bad = 0;
            uint32_t to = 0;
        };
        std::vector<Call> calls(threads);
        for (auto& c : calls)
            c.m.reset(new M::MethodCall(M::MethodCallIdentifier("/o", "i", "m")));
        size_t before = l.w.wire.size();
        symx_nopreempt(0);
        Threads ts;
        for (size_t i = 0; i < threads; ++i)
            ts.go([&, i] {
                Call& c = calls[i];
                l.n->sendMethodCall(
                    "d", *c.m, [&c](const M::MethodReturn& r) { ++c.ok; c.to = r.m_SerialReplyingTo; },
                    [&c](const M::Error& e) { ++c.bad; c.to = e.getSerialOfReply(); });
            });
        // the peer: as soon as a call has come, it is answered
        size_t at = before;
        for (size_t i = 0; i < threads; ++i) {
            l.w.awaitWire(at + 1);
            const std::string s = l.w.received();
            auto num = [&](size_t p) { return (uint32_t)(uint8_t)s[p] | (uint32_t)(uint8_t)s[p + 1] << 8 | (uint32_t)(uint8_t)s[p + 2] << 16 | (uint32_t)(uint8_t)s[p + 3] << 24; };
            uint32_t serial = num(at + 8);
            at += 16 + (num(at + 12) + 7) / 8 * 8 + num(at + 4);
            CHECK(at <= s.size(), "a complete message");
            std::string reply = aReply(error, serial).wire();
            l.w.peerSends(twice ? reply + reply : reply);
        }
        ts.join();
        symx_nopreempt(1);
        l.w.awaitIdle();
        for (auto& c : calls) {
            CHECK(c.ok + c.bad == 1, "every call is completed once");
            CHECK(c.bad == (int)error, "by the callback for its reply");
            CHECK(c.to == c.m->getSerial(), "with its own reply");
        }
        l.n.reset();
    }
    symx_reach("done");
}
