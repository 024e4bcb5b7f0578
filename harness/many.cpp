// C13, C14, C18, C19, C28, C34: the same with many calls, handlers, rules, messages: the numbers and sizes are selected, what is
// looked at among them is every one or a chosen one
#include "bus.h"
using namespace ref;
namespace M = DBus::Message;

namespace {
const size_t NUMBERS[] = { 9, 17, 33, 65, 129, 257, 300 };
size_t number() { return NUMBERS[symx_choice(symx_param("numbers", 6), "number")]; }
// one of the interesting positions among n
size_t position(size_t n)
{
    const size_t at[] = { 0, 1, n / 2, n - 2, n - 1 };
    return at[symx_choice(5, "position")];
}
uint32_t counterStart()
{
    static const uint32_t starts[] = { 0, 0x7f, 0xff - 4, 0xffff - 4, 0x7fffffff - 4, 0xffffffff - 4 };
    return starts[symx_choice(6, "counter")];
}
}
// many calls await their replies
extern "C" void many_calls()
{
    Bus b;
    M::Base::setNextSerial(counterStart());
    size_t n = number();
    std::vector<uint32_t> serials;
    std::vector<int> ok(n, 0), bad(n, 0);
    for (size_t i = 0; i < n; ++i) {
        M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"));
        serials.push_back(m.getSerial());
        b.n->sendMethodCall("d", m, [&, i](const M::MethodReturn& r) { ok[i] += 1 + (r.m_SerialReplyingTo != serials[i]); }, [&, i](const M::Error& e) { bad[i] += 1 + (e.getSerialOfReply() != serials[i]); });
    }
    CHECK(b.sent().size() == n, "every call is sent");
    for (size_t i = 0; i < n; ++i)
        CHECK(ok[i] == 0 && bad[i] == 0, "no callback before a reply");
    // one reply first, to any of them; then the others, in either order, as returns and errors
    size_t first = position(n);
    bool backwards = symx_choice(2, "backwards"), together = symx_choice(2, "together");
    std::vector<size_t> order { first };
    for (size_t i = 0; i < n; ++i) {
        size_t k = backwards ? n - 1 - i : i;
        if (k != first)
            order.push_back(k);
    }
    std::string stream;
    for (size_t i = 0; i < n; ++i) {
        std::string w = aReply(order[i] % 3 == 0, serials[order[i]]).wire();
        if (i == 0 || !together) {
            b.say(w);
            size_t k = order[i];
            CHECK(ok[k] == (k % 3 != 0) && bad[k] == (k % 3 == 0), "the callback of the call that is answered, once");
        } else
            stream += w;
        if (i == 0)
            for (size_t k = 0; k < n; ++k)
                CHECK(k == first || (ok[k] == 0 && bad[k] == 0), "and no other");
    }
    if (!stream.empty())
        b.say(stream);
    for (size_t k = 0; k < n; ++k)
        CHECK(ok[k] == (k % 3 != 0) && bad[k] == (k % 3 == 0), "every call is completed once");
    b.say(aReply(false, serials[first]).wire());
    CHECK(ok[first] == (first % 3 != 0), "and only once");
    symx_reach("done");
}
// many handlers and rules
extern "C" void many_handlers()
{
    Bus b;
    size_t n = number();
    std::vector<int> called(n, 0), signalled(n, 0), ruled(n, 0);
    auto name = [](size_t i) { return "m" + std::to_string(i); };
    auto rule = [&](size_t i) { return "type='signal',member='" + name(i) + "'"; };
    for (size_t i = 0; i < n; ++i) {
        b.n->registerMethodCallHandler("i." + name(i), [&, i](const M::MethodCall&) { ++called[i]; });
        b.n->registerSignalHandler("i." + name(i), [&, i](const M::Signal&) { ++signalled[i]; });
        b.n->callAddMatch(rule(i), [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&, i](const M::Signal&) { ++ruled[i]; });
    }
    CHECK(b.sent().size() == n, "the bus is asked for every rule");
    size_t one = position(n), gone = position(n);
    b.n->unRegisterMethodCallHandler("i." + name(gone));
    b.n->unRegisterSignalHandler("i." + name(gone));
    b.n->callRemoveMatch(rule(gone));
    CHECK(b.sent().size() == 1, "and to remove one");
    b.say(aCall("/p", "i", name(one)).wire());
    for (size_t i = 0; i < n; ++i)
        CHECK(called[i] == (i == one && i != gone) && signalled[i] == 0 && ruled[i] == 0, "a call reaches the handler of its name");
    b.say(aSignal("/p", "i", name(one)).wire());
    for (size_t i = 0; i < n; ++i)
        CHECK(called[i] == (i == one && i != gone) && signalled[i] == (i == one && i != gone) && ruled[i] == (i == one && i != gone), "a signal reaches the handler of its name, and the rule that it matches");
    // and each of them still works
    std::string stream;
    for (size_t i = 0; i < n; ++i)
        stream += aCall("/p", "i", name(i)).wire() + aSignal("/p", "i", name(i)).wire();
    b.say(stream);
    for (size_t i = 0; i < n; ++i) {
        int want = i == gone ? 0 : i == one ? 2 : 1;
        CHECK(called[i] == want && signalled[i] == want && ruled[i] == want, "everything that is registered is reached");
    }
    CHECK(b.sent().empty(), "nothing is sent");
    symx_reach("done");
}
// many messages before authentication has completed, and behind it
extern "C" void many_queued()
{
    Bus b(false);
    M::Base::setNextSerial(counterStart());
    size_t n = number(), size = symx_choice(2, "size") ? 700 : 1;
    size_t before = position(n);
    std::string text(size, 'q'), queued;
    auto send = [&](size_t i) {
        text[0] = (char)i;
        M::Signal m(M::MethodCallIdentifier("/o", "i", "m"));
        m.addParameter(DBus::Type::String(text));
        queued += m.marshall("");
        b.n->broadcastSignal(m);
    };
    std::string start(1, '\0');
    for (size_t i = 0; i < n; ++i) {
        if (i == before) {
            b.n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            start += authLine();
        }
        send(i);
    }
    b.w.pump();
    CHECK(b.w.wire == start, "before BEGIN, nothing but the authentication");
    b.say("OK 0123\r\n");
    start += "BEGIN\r\n";
    CHECK(same(b.w.wire, start + queued), "then the messages, in order, each once");
    send(n);
    b.w.pump();
    CHECK(same(b.w.wire, start + queued), "and those that follow");
    symx_reach("done");
}
// many calls await their replies, and a reply of any serial arrives: the solver decides which call it answers, if any
extern "C" void any_of_many()
{
    Bus b;
    M::Base::setNextSerial(counterStart());
    size_t n = number();
    std::vector<uint32_t> serials;
    std::vector<int> ok(n, 0);
    int bad = 0;
    for (size_t i = 0; i < n; ++i) {
        M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"));
        serials.push_back(m.getSerial());
        b.n->sendMethodCall("d", m, [&ok, i](const M::MethodReturn&) { ++ok[i]; }, [&bad](const M::Error&) { ++bad; });
    }
    uint32_t to;
    symx_bytes(&to, sizeof to, "reply serial");
    b.say(aReply(false, to).wire());
    int calls = 0;
    for (size_t i = 0; i < n; ++i) {
        if (ok[i])
            CHECK(ok[i] == 1 && to == serials[i], "only the call that is answered, once");
        else
            CHECK(to != serials[i], "no call that is answered is left out");
        calls += ok[i];
    }
    CHECK(calls <= 1 && !bad, "at most one callback");
    symx_reach(calls ? "answered" : "unknown");
}
// many messages while the peer does not read
extern "C" void many_blocked()
{
    Bus b;
    b.w.partialWrites = (int)symx_param("partial", 1);
    size_t n = number(), size = symx_choice(2, "size") ? 700 : 1;
    size_t stops = position(n), goesOn = position(n);
    std::string text(size, 'q'), want = b.w.wire;
    for (size_t i = 0; i < n; ++i) {
        if (i == stops)
            b.w.peerStopsReading();
        if (i == goesOn)
            b.w.peerReads();
        text[0] = (char)i;
        M::MethodReturn m(i);
        m.addParameter(DBus::Type::String(text));
        want += m.marshall("d");
        b.n->sendMethodReturn("d", m);
        if (i == stops + 1)
            b.w.pump();
    }
    b.w.peerReads();
    b.w.pump();
    CHECK(same(b.w.wire, want), "every message reaches the peer, complete, in order, once");
    symx_reach("done");
}
// counters after many events
extern "C" void many_counted()
{
    Bus b;
    symx_opaque_numbers(0);
    size_t n = number(), kind = symx_choice(8, "kind");
    static const char* const labels[] = { "count_sent_methodcalls", "count_sent_methodreturns", "count_sent_errors", "count_sent_signals", "count_receive_methodcalls", "count_receive_methodreturns", "count_receive_errors", "count_receive_signals" };
    for (size_t i = 0; i < n; ++i) {
        switch (kind) {
        case 0: b.n->sendMethodCall("d", M::MethodCall(M::MethodCallIdentifier("/o", "i", "m"))); break;
        case 1: b.n->sendMethodReturn("d", M::MethodReturn(7)); break;
        case 2: b.n->sendError("d", M::Error(7, "a.b", "t")); break;
        case 3: b.n->broadcastSignal(M::Signal(M::MethodCallIdentifier("/o", "i", "m"))); break;
        case 4: b.say(aCall("/o", "i", "m").wire()); break;
        case 5: b.say(aReply(false, 7).wire()); break;
        case 6: b.say(aReply(true, 7).wire()); break;
        default: b.say(aSignal("/o", "i", "m").wire());
        }
    }
    b.w.pump();
    std::string s = b.n->getStats();
    for (size_t k = 0; k < 8; ++k) {
        std::string want = std::string(" ") + labels[k] + ": " + std::to_string(k == kind ? n : 0) + "\n";
        CHECK(s.find(want) != std::string::npos, labels[k]);
    }
    CHECK(s.find("count_messages_sent: " + std::to_string((kind < 4 ? n : 0) + 2) + "\n") != std::string::npos, "messages sent");
    CHECK(s.find("bytes_sent: " + std::to_string(b.w.wire.size() - 1) + "\n") != std::string::npos, "bytes sent");
    symx_reach("done");
}
