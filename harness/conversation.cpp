// C34: conversations over the bus. One connection talks to itself by way of a bus that parses what it is given with the
// independent reader, adds the sender, and writes it again in either byte order.
#include "bus.h"
#include "long.h"
using namespace ref;
namespace M = DBus::Message;

namespace {
std::vector<Val> anyParams(size_t most, int depth, bool api, const char* leaves = BASICS)
{
    Gen g;
    g.leaves = leaves;
    g.apiVariant = api;
    g.arrInArr = !api;
    g.maxStr = (int)symx_param("maxstr", 1);
    g.maxArr = (int)symx_param("maxarr", 1);
    g.maxFields = 2;
    g.inner = "us";
    std::vector<Val> r;
    size_t n = symx_choice(most + 1, "params");
    for (size_t i = 0; i < n; ++i) {
        std::string sig = genSig(g, depth, i == 0);
        r.push_back(gen(g, sig, 1));
    }
    return r;
}
void sameBody(const std::vector<Val>& a, const std::vector<Val>& b, const char* what)
{
    CHECK(a.size() == b.size(), what);
    for (size_t i = 0; i < a.size(); ++i)
        expectSame(a[i], b[i], what);
}
// what travels passes through here; returns what passed
struct Daemon {
    Bus& b;
    bool big;
    size_t cuts; // how the stream is cut when it is delivered: 0 whole, else after so many bytes
    std::vector<Msg> route(bool together)
    {
        std::vector<Msg> in = b.sent();
        std::string stream;
        for (Msg& m : in) {
            CHECK(!m.get(SENDER), "the sender is set by the bus");
            Msg o = m;
            o.big = big;
            o.field(SENDER, ":1.7");
            std::string w = o.wire();
            if (together)
                stream += w;
            else
                give(w);
        }
        if (together && !stream.empty())
            give(stream);
        return in;
    }
    void give(const std::string& s)
    {
        size_t at = cuts < s.size() ? cuts : 0;
        if (at)
            b.say(s.substr(0, at));
        b.say(s.substr(at));
    }
};
}

// calls answered by handlers of the same connection, now or later, in any order
extern "C" void conversation()
{
    Bus b;
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    size_t calls = symx_param("calls", 1), most = symx_param("params", 1);
    int depth = (int)symx_param("depth", 0);
    const char* leaves = calls == 1 ? BASICS : "u";
    // every pair of: the other byte order, answered later, delivered together
    size_t cuts = symx_param("cuts", 0), style = cuts ? 3 : calls == 1 ? 3 * symx_choice(2, "style") : symx_choice(4, "style");
    bool big = style & 1, later = style & 2, together = style == 0 || style == 3;
    Daemon d { b, big, cuts ? symx_choice(cuts, "cut") : 0 };
    struct Talk {
        uint32_t serial = 0, flags = 0;
        std::vector<Val> args, result;
        std::string error, text, dest;
        int how = 0; // 0 return, 1 error, 2 the arguments are returned
        int asked = 0, answered = 0;
    };
    std::vector<Talk> talks(calls);
    struct Waiting {
        size_t talk;
        uint32_t serial;
        std::string sender;
        std::vector<DBus::Type::Generic> params;
    };
    std::vector<Waiting> waiting;
    size_t next = 0;
    auto answer = [&](const Waiting& w) {
        Talk& t = talks[w.talk];
        if (t.flags & 1)
            return;
        if (t.how == 1) {
            b.n->sendError(w.sender, M::Error(w.serial, t.error, t.text));
            return;
        }
        M::MethodReturn r(w.serial);
        if (t.how == 0)
            for (const Val& v : t.result)
                r.addParameter(build(v));
        else
            for (const auto& g : w.params)
                r.addParameter(g);
        b.n->sendMethodReturn(w.sender, r);
    };
    b.n->registerMethodCallHandler("i.m", [&](const M::MethodCall& m) {
        CHECK(next < talks.size(), "each call arrives once");
        Talk& t = talks[next];
        ++t.asked;
        Got g = take(m);
        CHECK(g.serial == t.serial, "calls arrive in order, with their serials");
        CHECK(g.sender == ":1.7", "the sender that the bus has set");
        CHECK(same(g.destination, t.dest), "the destination");
        CHECK(g.path == "/o" && g.interface == "i" && g.member == "m", "the names");
        CHECK(g.replyExpected == ((t.flags & 1) == 0), "whether a reply is expected");
        CHECK(g.params.size() == t.args.size(), "the arguments");
        for (size_t i = 0; i < t.args.size(); ++i)
            expectValue(g.params[i], t.args[i]);
        Waiting w { next, m.getSerial(), m.getHeaderSender(), g.params };
        ++next;
        if (later)
            waiting.push_back(w);
        else
            answer(w);
    });
    for (size_t i = 0; i < calls; ++i) {
        Talk& t = talks[i];
        t.how = (int)symx_choice(3, "how");
        t.flags = symx<uint8_t>("flags");
        t.dest = symxString(1 + i, "destination");
        bool rich = i == 0; // the others are plain
        Val v;
        v.sig = "s";
        v.str = symxString(1, "argument");
        if (!rich)
            t.args.push_back(v);
        else if (t.how != 0)
            t.args = anyParams(most, depth, true, leaves);
        if (t.how == 0)
            t.result = rich ? anyParams(most, depth, true, leaves) : t.args;
        t.error = "e" + symxString(1, "error name");
        t.text = symxString(t.how == 1 ? symx_choice(2, "text length") : 0, "text");
        M::MethodCallParametersIn in;
        for (const Val& v : t.args)
            in.add(build(v));
        M::MethodCall m(M::MethodCallIdentifier("/o", "i", "m"), in, t.flags);
        t.serial = m.getSerial();
        b.n->sendMethodCall(
            t.dest, m,
            [&, i](const M::MethodReturn& r) {
                Talk& u = talks[i];
                ++u.answered;
                CHECK(u.asked == 1, "answered once asked");
                CHECK(u.how != 1, "success for a return");
                CHECK(r.m_SerialReplyingTo == u.serial, "of that call");
                Got g = take(r);
                const std::vector<Val>& want = u.how == 0 ? u.result : u.args;
                CHECK(g.params.size() == want.size(), "the result");
                for (size_t k = 0; k < want.size(); ++k)
                    expectValue(g.params[k], want[k]);
            },
            [&, i](const M::Error& r) {
                Talk& u = talks[i];
                ++u.answered;
                CHECK(u.asked == 1, "answered once asked");
                CHECK(u.how == 1, "failure for an error");
                CHECK(r.getSerialOfReply() == u.serial, "of that call");
                CHECK(same(r.getMessage(), u.text), "the text of the error");
            });
    }
    std::vector<Msg> passed = d.route(together);
    CHECK(passed.size() == calls, "every call is sent once");
    for (size_t i = 0; i < calls; ++i) {
        sameBody(passed[i].body, talks[i].args, "the arguments on the way");
        CHECK(passed[i].flags == (talks[i].flags & 3), "the flags on the way");
    }
    // the answers that were put off, in either order
    bool backwards = later && calls > 1 && symx_choice(2, "order") == 1;
    for (size_t i = 0; i < waiting.size(); ++i)
        answer(waiting[backwards ? waiting.size() - 1 - i : i]);
    size_t due = 0;
    for (const Talk& t : talks)
        due += (t.flags & 1) == 0;
    std::vector<Msg> back = d.route(together);
    CHECK(back.size() == due, "one answer to each that wants one");
    for (const Msg& m : back)
        CHECK(m.text(DESTINATION) == ":1.7", "sent to the one who asked");
    CHECK(d.route(together).empty(), "nothing else is sent");
    for (const Talk& t : talks) {
        CHECK(t.asked == 1, "every call reaches its handler once");
        CHECK(t.answered == ((t.flags & 1) == 0 ? 1 : 0), "every call that wants an answer gets one");
    }
    // an answer that comes again finds nobody
    for (Msg& m : back) {
        Msg o = m;
        o.field(SENDER, ":1.7");
        b.say(o.wire());
    }
    for (const Talk& t : talks)
        CHECK(t.answered == ((t.flags & 1) == 0 ? 1 : 0), "and only once");
    symx_reach(due == 0 ? "no answer" : "answered");
}
// what arrives is passed on, as a call, an answer or a signal: nothing of it is lost
extern "C" void pass_on()
{
    Bus b;
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    int as = (int)symx_choice(4, "passed on as"); // a call, an answer, a signal, a signal to one
    bool signal = as == 0 || as == 2;
    Msg in = signal ? aSignal("/p", "i", "m") : aCall("/p", "i", "m");
    in.big = symx_choice(2, "byte order") == 1;
    in.field(SENDER, ":1." + symxString(1, "sender"));
    in.serial = symx<uint32_t>("serial");
    in.body = anyParams(symx_param("params", 1), (int)symx_param("depth", 1), false);
    int ran = 0;
    auto on = [&](const M::Base& m) {
        ++ran;
        std::string to = m.getHeaderSender();
        if (as == 0) {
            M::MethodCallParametersIn p;
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                p.add(m.getParameter(i));
            b.n->sendMethodCall(to, M::MethodCall(M::MethodCallIdentifier(m.getHeaderPath(), m.getHeaderInterface(), m.getHeaderMember()), p));
        } else if (as == 1) {
            M::MethodReturn r(m.getSerial());
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                r.addParameter(m.getParameter(i));
            b.n->sendMethodReturn(to, r);
        } else {
            M::Signal s(M::MethodCallIdentifier(m.getHeaderPath(), m.getHeaderInterface(), m.getHeaderMember()));
            for (size_t i = 0; i < m.getParameterCount(); ++i)
                s.addParameter(m.getParameter(i));
            if (as == 2)
                b.n->broadcastSignal(s);
            else
                b.n->sendSignal(to, s);
        }
    };
    b.n->registerMethodCallHandler("i.m", on);
    b.n->registerSignalHandler("i.m", on);
    b.say(in.wire());
    CHECK(ran == 1, "it arrives once");
    std::vector<Msg> out = b.sent();
    CHECK(out.size() == 1, "and is passed on once");
    const Msg& m = out[0];
    CHECK(m.kind == (as == 0 ? CALL : as == 1 ? RETURN : SIGNAL), "as what was asked");
    sameBody(m.body, in.body, "with everything that arrived");
    CHECK(same(m.text(DESTINATION), as == 2 ? "" : in.text(SENDER)), "to the one who sent it");
    if (as == 1) {
        const Val* r = m.get(REPLY_SERIAL);
        CHECK(r && (uint32_t)r->num == in.serial, "in answer to it");
    } else
        CHECK(m.text(PATH) == "/p" && m.text(INTERFACE) == "i" && m.text(MEMBER) == "m", "under its names");
    symx_reach("done");
}
// signals that a connection sends and hears itself
extern "C" void own_signals()
{
    Bus b;
    M::Base::setNextSerial(symx<uint32_t>("counter"));
    Daemon d { b, symx_choice(2, "byte order") == 1, 0 };
    size_t n = symx_param("signals", 2);
    std::string member = symxString(1, "member");
    std::vector<std::vector<Val>> bodies;
    std::vector<std::string> members;
    std::vector<uint32_t> serials;
    std::vector<Got> direct, matched;
    b.n->registerSignalHandler("i." + member, [&](const M::Signal& s) { direct.push_back(take(s)); });
    b.n->callAddMatch("type='signal',sender=':1.7'", [](const M::MethodReturn&) {}, [](const M::Error&) {}, [&](const M::Signal& s) { matched.push_back(take(s)); });
    b.sent();
    for (size_t i = 0; i < n; ++i) {
        std::string m = symxString(1, "signal");
        M::Signal s(M::MethodCallIdentifier("/o", "i", m));
        bodies.push_back(anyParams(1, i == 0 ? (int)symx_param("depth", 0) : 0, true, i == 0 ? BASICS : "u"));
        for (const Val& v : bodies.back())
            s.addParameter(build(v));
        members.push_back(m);
        serials.push_back(s.getSerial());
        b.n->broadcastSignal(s);
    }
    CHECK(d.route(symx_choice(2, "together") == 1).size() == n, "each is sent once");
    size_t at = 0;
    CHECK(matched.size() == n, "the rule sees every signal once");
    for (size_t i = 0; i < n; ++i) {
        bool hit = same(members[i], member);
        if (hit)
            CHECK(at < direct.size(), "the handler sees what has its name");
        for (const Got* g : { &matched[i], hit ? &direct[at] : nullptr }) {
            if (!g)
                continue;
            CHECK(g->serial == serials[i] && same(g->member, members[i]) && g->path == "/o" && g->interface == "i", "in order, under its name");
            CHECK(g->destination.empty() && g->sender == ":1.7", "to everybody");
            CHECK(g->params.size() == bodies[i].size(), "its parameters");
            for (size_t k = 0; k < bodies[i].size(); ++k)
                expectValue(g->params[k], bodies[i][k]);
        }
        at += hit;
    }
    CHECK(at == direct.size(), "and nothing else");
    CHECK(b.sent().empty(), "nothing is sent in answer");
    symx_reach("done");
}
// long arguments and answers, through the reads and writes of the connection
extern "C" void long_conversation()
{
    Bus b;
    size_t sizes = symx_param("sizes", 6), n = LONG_SIZES[symx_choice(sizes, "size")];
    int kind = (int)symx_choice(5, "kind");
    Daemon d { b, symx_choice(2, "byte order") == 1, 0 };
    // cut near its beginning, within its length, at the limits of reads, and near its end
    static const size_t CUTS[] = { 0, 1, 5, 15, 100, 128, 1023, 1024, 1025 };
    d.cuts = CUTS[symx_choice(symx_param("cuts", 9), "cut")];
    Val v = longValue(kind == 0 && n > 700 ? 700 : n, kind);
    if (symx_choice(2, "blocked")) {
        b.w.partialWrites = 1;
        b.w.peerStopsReading();
    }
    int asked = 0, answered = 0;
    b.n->registerMethodCallHandler("i.m", [&](const M::MethodCall& m) {
        ++asked;
        Got g = take(m);
        CHECK(g.params.size() == 1, "one argument");
        expectValue(g.params[0], v);
        M::MethodReturn r(m.getSerial());
        r.addParameter(g.params[0]);
        b.n->sendMethodReturn(m.getHeaderSender(), r);
    });
    M::MethodCallParametersIn in;
    in.add(build(v));
    M::MethodCall call(M::MethodCallIdentifier("/o", "i", "m"), in);
    b.n->sendMethodCall(
        "d", call, [&](const M::MethodReturn& r) {
            ++answered;
            CHECK(r.getParameterCount() == 1, "one result");
            expectValue(r.getParameter(0), v);
        },
        [&](const M::Error&) { CHECK(false, "no error"); });
    b.w.pump();
    b.w.peerReads();
    b.w.pump();
    CHECK(d.route(true).size() == 1, "the call is sent once");
    CHECK(asked == 1 && answered == 0, "and arrives once");
    CHECK(d.route(true).size() == 1, "the answer is sent once");
    CHECK(asked == 1 && answered == 1, "and arrives once");
    CHECK(b.sent().empty(), "nothing else is sent");
    symx_reach("done");
}
