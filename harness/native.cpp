// C13, C14, C16, C28, C29 (and C08, C09 at the level of the connection): histories on one connection
#include "bus.h"
using namespace ref;
namespace M = DBus::Message;

// ------------------------------------------------------------------------------------------ C13
namespace {
struct Asked {
    uint32_t serial;
    bool wants; // a reply is expected
    int act; // of its callbacks: 0 nothing, 1 throw, 2 send another call, 3 both
    int child = -1; // the call its callback sent
};
struct Heard {
    int call;
    bool error;
    uint32_t replySerial, serial;
    std::string text;
};
struct Replies {
    Bus& b;
    std::vector<Asked> calls;
    std::vector<Heard> heard;
    explicit Replies(Bus& bus) : b(bus) {}
    void call(uint32_t flags, int act)
    {
        M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"), M::MethodCallParametersIn(), flags);
        int id = (int)calls.size();
        Asked a;
        a.serial = m.getSerial();
        a.wants = (flags & 1) == 0;
        a.act = act;
        calls.push_back(a);
        b.n->sendMethodCall(
            "d", m,
            [this, id](const M::MethodReturn& r) { got(id, false, r.m_SerialReplyingTo, r.getSerial(), ""); },
            [this, id](const M::Error& r) { got(id, true, r.getSerialOfReply(), r.getSerial(), r.getMessage()); });
    }
    void got(int id, bool error, uint32_t replySerial, uint32_t serial, const std::string& text)
    {
        heard.push_back({ id, error, replySerial, serial, text });
        int act = calls[id].act;
        if (act & 2) {
            CHECK(calls[id].child < 0, "the callback of a call runs once");
            calls[id].child = (int)calls.size();
            call(0, 0);
        }
        if (act & 1)
            throw std::runtime_error("callback");
    }
};
}
extern "C" void replies()
{
    Bus b;
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    Replies r(b);
    size_t n = symx_param("calls", 2), k = symx_param("replies", 2);
    int acts = (int)symx_param("acts", 4);
    for (size_t i = 0; i < n; ++i) {
        // in one of the calls, every flag combination
        uint32_t flags = 0;
        if (i == 0)
            flags = symx<uint8_t>("flags");
        int act = (int)symx_choice(acts, "act");
        r.call(flags, act);
    }
    CHECK(b.sent().size() == n, "every call is sent");
    CHECK(r.heard.empty(), "no callback before a reply");
    bool together = symx_param("together", 0);
    std::vector<Msg> in;
    std::string stream;
    std::vector<bool> open; // by call
    size_t expected = 0, nested = 0;
    auto answer = [&](const Msg& m) { // the model's reaction to a reply that has been handled
        open.resize(r.calls.size(), true);
        for (size_t i = 0; i < r.calls.size(); ++i) {
            if (i >= n) { // sent by a callback: outstanding once that has run
                bool sent = false;
                for (size_t p = 0; p < r.calls.size(); ++p)
                    sent = sent || (r.calls[p].child == (int)i && !open[p]);
                if (!sent)
                    continue;
            }
            if (!open[i] || !r.calls[i].wants || r.calls[i].serial != (uint32_t)m.get(REPLY_SERIAL)->num)
                continue;
            open[i] = false;
            CHECK(expected < r.heard.size(), "the reply invokes a callback of its call");
            const Heard& h = r.heard[expected++];
            CHECK(h.call == (int)i, "of the call that it answers");
            CHECK(h.error == (m.kind == ERROR_), "success for a return, failure for an error");
            CHECK(h.replySerial == r.calls[i].serial && h.serial == m.serial, "with that reply");
            CHECK(same(h.text, m.kind == ERROR_ && !m.body.empty() ? m.body[0].str : ""), "with the text of that reply");
            if (r.calls[i].act & 2)
                ++nested;
            break;
        }
    };
    for (size_t i = 0; i < k; ++i) {
        bool error = symx_choice(2, "error");
        uint32_t to = symx<uint32_t>("to");
        Msg m = aReply(error, to, symx<uint32_t>("serial"));
        if (error) {
            Val v;
            v.sig = "s";
            v.str = symxString(2, "text");
            m.body.push_back(v);
        }
        in.push_back(m);
        if (together)
            stream += m.wire();
        else {
            b.say(m.wire());
            answer(m);
            CHECK(r.heard.size() == expected, "no other callback");
        }
    }
    if (together) {
        b.say(stream);
        for (const Msg& m : in)
            answer(m);
        CHECK(r.heard.size() == expected, "no other callback");
    }
    CHECK(b.sent().size() == nested, "what the callbacks send is sent, and nothing else");
    symx_reach(expected == 0 ? "unanswered" : expected == k ? "all" : "some");
}

// ------------------------------------------------------------------------------------------ C14
namespace {
std::string ident(const char* what, size_t most)
{
    return symxString(1 + symx_choice(most, "length"), what);
}
}
// which of the handlers a call or a signal reaches, for every combination of names
extern "C" void dispatch_names()
{
    bool signal = symx_choice(2, "signal");
    size_t most = symx_param("most", 2), handlers = symx_param("handlers", 2);
    Bus b;
    std::vector<std::string> names;
    std::vector<int> ran(handlers, 0);
    Got got;
    int other = 0;
    for (size_t i = 0; i < handlers; ++i) {
        std::string ifc = ident("interface", most), member = ident("member", 1);
        names.push_back(ifc + "." + member);
        // handlers of the other kind under the same name stay out of it
        b.n->registerMethodCallHandler(names[i], [&, i](const M::MethodCall& m) {
            signal ? ++other : ++ran[i];
            got = take(m);
        });
        b.n->registerSignalHandler(names[i], [&, i](const M::Signal& m) {
            signal ? ++ran[i] : ++other;
            got = take(m);
        });
    }
    std::string ifc = ident("interface", most), member = ident("member", 1);
    Msg m = signal ? aSignal("/" + symxString(1, "path"), ifc, member) : aCall("/" + symxString(1, "path"), ifc, member);
    m.flags = symx<uint8_t>("flags");
    b.say(m.wire());
    CHECK(other == 0, "calls reach method handlers and signals signal handlers");
    bool found = false;
    for (size_t i = 0; i < handlers; ++i) {
        bool hit = !found && same(names[i], ifc + "." + member); // the first one registered under a name keeps it
        CHECK(ran[i] == (hit ? 1 : 0), "exactly the handler registered under that name, once");
        found = found || hit;
    }
    if (found)
        expectGot(got, m);
    CHECK(b.sent().empty(), "nothing is sent");
    symx_reach(found ? "handled" : "unhandled");
}
// every match rule that matches sees the signal once, beside the handler
extern "C" void dispatch_rules()
{
    size_t rules = symx_param("rules", 2);
    Bus b;
    std::string path = "/" + symxString(1, "path"), ifc = symxString(1, "interface"), member = symxString(1, "member"), sender = symxString(1, "sender");
    std::vector<int> ran(rules, 0);
    std::vector<bool> want;
    std::vector<std::string> texts;
    int handler = 0;
    b.n->registerSignalHandler("i.m", [&](const M::Signal&) { ++handler; });
    for (size_t i = 0; i < rules; ++i) {
        std::string v = symxString(1, "value");
        for (char c : v)
            ASSUME(c != ',' && c != '=' && c != '\'' && c != '\\' && c != 0);
        std::string text;
        bool match = false;
        switch (symx_choice(6, "rule")) {
        case 0:
            text = "type='signal'";
            match = true;
            break;
        case 1:
            text = "type='signal',interface='" + v + "'";
            match = same(v, ifc);
            break;
        case 2:
            text = "member='" + v + "'";
            match = same(v, member);
            break;
        case 3:
            text = "sender='" + v + "',type='signal'";
            match = same(v, sender);
            break;
        case 4:
            text = "path='/" + v + "'";
            match = same("/" + v, path);
            break;
        default:
            text = "type='method_call'";
        }
        for (const std::string& t : texts)
            ASSUME(!same(t, text));
        texts.push_back(text);
        want.push_back(match);
        b.n->callAddMatch(text, [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&, i](const M::Signal&) { ++ran[i]; });
    }
    Msg m = aSignal(path, ifc, member);
    m.field(SENDER, sender);
    int removed = (int)symx_choice(rules + 1, "removed");
    if (removed)
        b.n->callRemoveMatch(texts[removed - 1]);
    b.say(m.wire());
    bool any = false;
    for (size_t i = 0; i < rules; ++i) {
        bool hit = want[i] && removed != (int)i + 1;
        CHECK(ran[i] == (hit ? 1 : 0), "every matching rule, once, and no other");
        any = any || hit;
    }
    CHECK(handler == ((ifc == "i" && member == "m") ? 1 : 0), "the handler of that name as well");
    // calls never reach rules
    b.say(aCall(path, ifc, member).wire());
    for (size_t i = 0; i < rules; ++i)
        CHECK(ran[i] == (want[i] && removed != (int)i + 1 ? 1 : 0), "method calls do not reach match rules");
    symx_reach(any ? "match" : "no match");
}
// histories in which handlers change the registrations while they run
namespace {
struct Reg {
    Bus b;
    static const int N = 2;
    // by kind (0 methods, 1 signals, 2 rules) and slot: which registration holds it (0 none), and which it was meanwhile
    int holder[3][N] = { { 0, 0 }, { 0, 0 }, { 0, 0 } };
    bool fresh[3][N] = { { false, false }, { false, false }, { false, false } }; // registered during this delivery
    int next = 1;
    std::vector<int> act; // by registration
    struct Alive {
        int v = 0x5afe;
        ~Alive() { v = 0; }
    };
    struct Ran {
        int kind, slot, reg;
        bool held; // it was registered when it ran
    };
    std::vector<Ran> ran;
    static std::string name(int slot) { return slot ? "i.n" : "i.m"; }
    static std::string rule(int slot) { return slot ? "interface='i',type='signal'" : "interface='i'"; }
    void add(int kind, int slot, int action)
    {
        int id = next++;
        act.resize(next);
        act[id] = action;
        auto alive = std::make_shared<Alive>();
        auto run = [this, kind, slot, id, alive]() {
            ran.push_back({ kind, slot, id, holder[kind][slot] == id });
            if (act[id])
                perform(act[id] - 1, kind);
            CHECK(alive->v == 0x5afe && alive.use_count() > 0, "a handler stays valid while it runs");
        };
        if (kind == 0)
            b.n->registerMethodCallHandler(name(slot), [run](const M::MethodCall&) { run(); });
        else if (kind == 1)
            b.n->registerSignalHandler(name(slot), [run](const M::Signal&) { run(); });
        else
            b.n->callAddMatch(rule(slot), [](const M::MethodReturn&) {}, [](const M::Error&) {}, [run](const M::Signal&) { run(); });
        if (!holder[kind][slot]) {
            holder[kind][slot] = id;
            fresh[kind][slot] = true;
        }
    }
    void remove(int kind, int slot)
    {
        if (kind == 0)
            b.n->unRegisterMethodCallHandler(name(slot));
        else if (kind == 1)
            b.n->unRegisterSignalHandler(name(slot));
        else
            b.n->callRemoveMatch(rule(slot));
        holder[kind][slot] = 0;
    }
    // action: 0.. remove slot 0, remove slot 1, add slot 0, add slot 1; same for another kind
    void perform(int a, int kind)
    {
        if (a >= 4) {
            kind = kind == 2 ? 1 : 2;
            a -= 4;
        }
        if (a & 2)
            add(kind, a & 1, 0);
        else
            remove(kind, a & 1);
    }
    void deliver(bool signal, int slot)
    {
        int before[3][N];
        for (int k = 0; k < 3; ++k)
            for (int s = 0; s < N; ++s) {
                before[k][s] = holder[k][s];
                fresh[k][s] = false;
            }
        ran.clear();
        b.say(signal ? aSignal("/p", "i", slot ? "n" : "m").wire() : aCall("/p", "i", slot ? "n" : "m").wire());
        for (size_t i = 0; i < ran.size(); ++i) {
            const Ran& r = ran[i];
            CHECK(r.held, "nothing is delivered to what has been removed");
            CHECK((r.kind == 0) == !signal && (r.kind == 2 || r.slot == slot), "only handlers of that name and rules");
            CHECK(before[r.kind][r.slot] == r.reg || fresh[r.kind][r.slot], "only to what is registered");
            for (size_t k = 0; k < i; ++k)
                CHECK(ran[k].reg != r.reg, "each once");
        }
        // what was registered all the time has run
        for (int k = 0; k < 3; ++k)
            for (int s = 0; s < N; ++s) {
                bool due = before[k][s] && before[k][s] == holder[k][s] && (signal ? (k == 1 && s == slot) || k == 2 : k == 0 && s == slot);
                bool did = false;
                for (const Ran& r : ran)
                    did = did || r.reg == before[k][s];
                if (due)
                    CHECK(did, "what is registered is run");
                // the handler of a name runs before it can be removed
                if (before[k][s] && ((!signal && k == 0) || (signal && k == 1)) && s == slot)
                    CHECK(did, "the handler of that name is run");
            }
    }
};
}
extern "C" void dispatch_history()
{
    Reg r;
    int kind = (int)symx_choice(3, "kind");
    size_t steps = symx_param("steps", 3), acts = symx_param("acts", 9);
    // one handler that acts on the registrations, then anything
    int action = (int)symx_choice(acts, "action");
    r.add(kind, 0, action);
    for (size_t i = 0; i < steps; ++i) {
        switch (symx_choice(4, "step")) {
        case 0: {
            int s = (int)symx_choice(2, "slot");
            r.deliver(kind != 0, s);
            break;
        }
        case 1: {
            int s = (int)symx_choice(2, "slot");
            r.remove(kind, s);
            break;
        }
        case 2: {
            int a = (int)symx_choice(acts, "action");
            r.add(kind, 1, a);
            break;
        }
        default:
            if (kind == 0)
                symx_end();
            r.add(kind == 1 ? 2 : 1, 0, (int)symx_choice(2, "action") * action);
        }
    }
    r.deliver(kind != 0, 0);
    r.deliver(kind != 0, 0);
    symx_reach("done");
}
// ------------------------------------------------------------------------------------------ C16
// a rule that is refused is neither installed nor sent
extern "C" void rule_refused()
{
    Bus b;
    static const char* const bad[] = { "type", "type=", "path='/a',path_namespace='/a'", "member", "type='signal',member", "type='signal',member=", "type='signal", "member='", "path_namespace='/',path='/'" };
    size_t k = symx_choice(sizeof bad / sizeof *bad + 1, "rule");
    std::string rule;
    if (k)
        rule = bad[k - 1];
    else
        rule = symxString(symx_choice(symx_param("maxlen", 4) + 1, "length"), "rule");
    int ran = 0;
    bool threw = false;
    try {
        b.n->callAddMatch(rule, [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal&) { ++ran; });
    } catch (const std::exception&) {
        threw = true;
    }
    if (k)
        CHECK(threw, "a malformed rule is rejected");
    std::vector<Msg> sent = b.sent();
    CHECK(sent.size() == (threw ? 0u : 1u), "the bus is asked for the rule exactly if it is accepted");
    Msg m = aSignal("/a", "i", "m");
    b.say(m.wire());
    if (threw)
        CHECK(ran == 0, "a rejected rule is not installed");
    symx_reach(threw ? "rejected" : "accepted");
}

// ------------------------------------------------------------------------------------------ C28
namespace {
std::vector<uint64_t> numbersAfter(const std::string& text, const char* label)
{
    std::vector<uint64_t> r;
    size_t p = text.find(label);
    if (p == std::string::npos)
        return r;
    p += strlen(label);
    while (p < text.size() && (text[p] == ' ' || text[p] == ':'))
        ++p;
    uint64_t v = 0;
    CHECK(p < text.size() && text[p] >= '0' && text[p] <= '9', "a number");
    while (p < text.size() && text[p] >= '0' && text[p] <= '9')
        v = v * 10 + (text[p++] - '0');
    r.push_back(v);
    return r;
}
}
extern "C" void stats()
{
    Bus b(false);
    symx_opaque_numbers(0);
    uint64_t sentCalls = 0, sentReturns = 0, sentErrors = 0, sentSignals = 0, gotCalls = 0, gotReturns = 0, gotErrors = 0, gotSignals = 0;
    uint64_t queued = 0, pumped = 0, sent = 0, bytes = 0, read = 0, authBytes = 0, msgBytes = 0;
    bool ready = false;
    uint64_t waitingBytes = 0, waiting = 0;
    size_t steps = symx_param("steps", 3);
    size_t loginAt = symx_choice(steps + 1, "login");
    if (symx_choice(2, "handler"))
        b.n->registerSignalHandler("i.m", [](const M::Signal&) { throw std::runtime_error("handler"); });
    auto one = [&](size_t size) {
        if (ready) {
            ++sent;
            bytes += size;
        } else {
            ++queued;
            ++waiting;
            waitingBytes += size;
        }
    };
    auto check = [&]() {
        std::string s = b.n->getStats();
        auto is = [&](const char* label, uint64_t want) {
            auto v = numbersAfter(s, label);
            CHECK(v.size() == 1 && v[0] == want, label);
        };
        is("count_sent_methodcalls", sentCalls);
        is("count_sent_methodreturns", sentReturns);
        is("count_sent_errors", sentErrors);
        is("count_sent_signals", sentSignals);
        is("count_receive_methodcalls", gotCalls);
        is("count_receive_methodreturns", gotReturns);
        is("count_receive_errors", gotErrors);
        is("count_receive_signals", gotSignals);
        is("count_messages_queued", queued);
        is("count_messages_pumped", pumped);
        is("count_messages_sent", sent);
        is("bytes_sent", bytes);
        is("bytes_auth", authBytes);
        is("bytes_message", msgBytes);
        is("bytes_read", read);
    };
    for (size_t i = 0; i <= steps; ++i) {
        if (i == loginAt) {
            b.n->BeginAuth(DBus::AuthenticationProtocol::AUTH_BASIC);
            ++sent;
            bytes += authLine().size();
            std::string line = "OK 0123\r\n";
            size_t cut = symx_choice(3, "cut") * 4; // the line in one or two reads
            if (cut)
                b.say(line.substr(0, cut));
            b.say(line.substr(cut));
            read += line.size();
            authBytes += line.size();
            sent += 1 + waiting;
            bytes += 7 + waitingBytes;
            pumped += waiting;
            ready = true;
            check();
        }
        if (i == steps)
            break;
        switch (symx_choice(ready ? 10 : 6, "step")) {
        case 5: { // something that cannot be encoded: its signature is too long
            DBus::Type::Array a;
            a.setSignature("a" + std::string(255, 'y'));
            bool threw = false;
            try {
                if (symx_choice(2, "call")) {
                    M::MethodCallParametersIn in;
                    in.add(a);
                    b.n->sendMethodCall("d", M::MethodCall(M::MethodCallIdentifier("/o", "i", "m"), in));
                } else {
                    M::Signal m(M::MethodCallIdentifier("/o", "i", "m"));
                    m.addParameter(a);
                    b.n->broadcastSignal(m);
                }
            } catch (const std::exception&) {
                threw = true;
            }
            CHECK(threw, "what cannot be encoded is refused");
            break;
        }
        case 0: {
            M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"));
            b.n->sendMethodCall("d", m);
            ++sentCalls;
            one(m.marshall("d").size());
            break;
        }
        case 1: {
            M::MethodReturn m(5);
            b.n->sendMethodReturn("d", m);
            ++sentReturns;
            one(m.marshall("d").size());
            break;
        }
        case 2: {
            M::Error m(5, "a.b", "text");
            b.n->sendError("d", m);
            ++sentErrors;
            one(m.marshall("d").size());
            break;
        }
        case 3: {
            M::Signal m(M::MethodCallIdentifier("/o", "i", "m"));
            b.n->sendSignal("d", m);
            ++sentSignals;
            one(m.marshall("d").size());
            break;
        }
        case 4: {
            M::Signal m(M::MethodCallIdentifier("/o", "i", "m"));
            b.n->broadcastSignal(m);
            ++sentSignals;
            one(m.marshall("").size());
            break;
        }
        case 6:
        case 7: {
            bool error = symx_choice(2, "error");
            Msg m = aReply(error, 1 + (uint32_t)symx_choice(2, "to"));
            b.say(m.wire());
            ++(error ? gotErrors : gotReturns);
            read += m.wire().size();
            msgBytes += m.wire().size();
            break;
        }
        default: {
            bool signal = symx_choice(2, "signal");
            Msg m = signal ? aSignal("/o", "i", "m") : aCall("/o", "i", "m");
            std::string s = m.wire();
            size_t cut = symx_choice(2, "cut") * 20;
            if (cut)
                b.say(s.substr(0, cut));
            b.say(s.substr(cut));
            ++(signal ? gotSignals : gotCalls);
            read += s.size();
            msgBytes += s.size();
        }
        }
        check();
    }
    symx_reach("done");
}

// ------------------------------------------------------------------------------------------ C29
extern "C" void convenience()
{
    Bus b;
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    int which = (int)symx_choice(11, "which");
    std::string arg = symxString(symx_choice(symx_param("maxlen", 6) + 1, "length"), "argument");
    uint32_t flags = symx<uint32_t>("flags");
    int ok = 0, bad = 0;
    uint32_t okSerial = 0;
    auto success = [&](const M::MethodReturn& r) {
        ++ok;
        okSerial = r.getSerial();
    };
    auto failure = [&](const M::Error& r) {
        ++bad;
        okSerial = r.getSerial();
    };
    std::vector<Val> args;
    std::string member;
    auto str = [&](const std::string& s) {
        Val v;
        v.sig = "s";
        v.str = s;
        args.push_back(v);
    };
    bool replies = true;
    switch (which) {
    case 0:
        member = "Hello";
        b.n->callHello(success, failure);
        break;
    case 1:
        member = "GetConnectionUnixProcessID";
        str(arg);
        b.n->callGetUnixProcessId(arg, success, failure);
        break;
    case 2:
        member = "GetConnectionUnixUser";
        str(arg);
        b.n->callGetConnectionUnixUser(arg, success, failure);
        break;
    case 3: {
        member = "RequestName";
        str(arg);
        Val v;
        v.sig = "u";
        v.num = flags;
        args.push_back(v);
        b.n->callRequestName(arg, flags, success, failure);
        break;
    }
    case 4:
        member = "ReleaseName";
        str(arg);
        b.n->callReleaseName(arg, success, failure);
        break;
    case 5:
        member = "ListQueuedOwners";
        str(arg);
        b.n->callListQueuedOwners(arg, success, failure);
        break;
    case 6:
        member = "ListNames";
        b.n->callListNames(success, failure);
        break;
    case 7:
        member = "ListActivatableNames";
        b.n->callListActivatableNames(success, failure);
        break;
    case 8:
        member = "NameHasOwner";
        str(arg);
        b.n->callNameHasOwner(arg, success, failure);
        break;
    case 9: {
        for (char c : arg)
            ASSUME(c != '\'' && c != '\\' && c != 0);
        std::string rule = "member='" + arg + "'";
        member = "AddMatch";
        str(rule);
        b.n->callAddMatch(rule, success, failure, [](const M::Signal&) {});
        break;
    }
    default:
        member = "RemoveMatch";
        str(arg);
        replies = false;
        b.n->callRemoveMatch(arg);
    }
    std::vector<Msg> sent = b.sent();
    CHECK(sent.size() == 1, "exactly one message is sent");
    const Msg& m = sent[0];
    CHECK(m.kind == CALL, "a method call");
    CHECK(m.text(DESTINATION) == "org.freedesktop.DBus", "to the bus");
    CHECK(m.text(PATH) == "/org/freedesktop/DBus", "to its object");
    CHECK(m.text(INTERFACE) == "org.freedesktop.DBus", "in its interface");
    CHECK(m.text(MEMBER) == member, "the standard method");
    CHECK((m.flags & 1) == (replies ? 0 : 1), "a reply is expected, except for removing a rule");
    CHECK(m.body.size() == args.size(), "number of arguments");
    for (size_t i = 0; i < args.size(); ++i)
        expectSame(m.body[i], args[i], "arguments in order and unaltered");
    bool error = symx_choice(2, "error");
    Msg r = aReply(error, m.serial, symx<uint32_t>("serial"));
    b.say(r.wire());
    CHECK(ok == (replies && !error ? 1 : 0) && bad == (replies && error ? 1 : 0), "the reply reaches the caller");
    if (replies)
        CHECK(okSerial == r.serial, "that reply");
    b.say(r.wire());
    CHECK(ok + bad == (replies ? 1 : 0), "once");
    symx_reach("done");
}
// ------------------------------------------------------------------------------------------ C08, C09
// a stream error on a connection does not keep it from receiving what comes afterwards
extern "C" void connection_recovers()
{
    Bus b;
    std::vector<Got> got;
    bool throws = symx_choice(2, "throws");
    b.n->registerMethodCallHandler("i.m", [&](const M::MethodCall& m) {
        got.push_back(take(m));
        if (throws)
            throw std::runtime_error("handler");
    });
    b.n->registerSignalHandler("i.m", [&](const M::Signal& m) {
        got.push_back(take(m));
        if (throws)
            throw std::runtime_error("handler");
    });
    auto message = [&]() {
        bool signal = symx_choice(2, "signal");
        Msg m = signal ? aSignal("/p", "i", "m") : aCall("/p", "i", "m");
        m.serial = symx<uint32_t>("serial");
        m.big = symx_choice(2, "order");
        return m;
    };
    Msg first = message();
    b.say(first.wire());
    CHECK(got.size() == 1, "delivered");
    // a header that announces too much: the connection starts afresh behind what has been read
    std::string bad = Msg::frame(CALL, false, 0, 1, "", "");
    bool field = symx_choice(2, "fields");
    uint32_t size = symx<uint32_t>("size");
    ASSUME(size > (field ? 67108864u : 134217728u));
    for (int i = 0; i < 4; ++i)
        bad[(field ? 12 : 4) + i] = (char)(size >> 8 * i);
    if (symx_choice(2, "cut")) {
        b.say(bad.substr(0, 9));
        b.say(bad.substr(9));
    } else
        b.say(bad);
    CHECK(got.size() == 1, "nothing is delivered for it");
    Msg second = message();
    std::string s = second.wire();
    size_t cut = symx_choice(3, "cut") * 17;
    if (cut)
        b.say(s.substr(0, cut));
    b.say(s.substr(cut));
    CHECK(got.size() == 2, "what comes afterwards is delivered");
    expectGot(got[0], first);
    expectGot(got[1], second);
    symx_reach("done");
}
