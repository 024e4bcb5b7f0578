# Connections
N = "dbus_native.cpp"
LIVE = r'''
// a connection that is logged in to a fake bus
struct Live {
    FakeBus bus;
    std::unique_ptr<Native> n;
    Live() : n(new Native(bus.path)) { bus.login(*n); }
    uint32_t call(const std::string& member, std::function<void()> ok, std::function<void()> bad = [] {})
    {
        Message::MethodCall m(Message::MethodCallIdentifier("/a", "b.c", member));
        n->sendMethodCall("x.y", m, [ok](const Message::MethodReturn&) { ok(); }, [bad](const Message::Error&) { bad(); });
        bus.readMessages(1);
        return m.getSerial();
    }
};
static size_t stat(Native& n, const std::string& name)
{
    std::string s = n.getStats();
    size_t at = s.find(name + ": ");
    EXPECT(at != std::string::npos);
    return strtoul(s.c_str() + at + name.size() + 2, nullptr, 10);
}
'''
seed("C06-header-mask", "C06", [("dbus_messageprotocol.cpp", "        m_headerSize += (m_headerSize % 8 == 0) ? 0 : 8 - (m_headerSize % 8);", "        m_headerSize = (m_headerSize + 7) & 0xfff8;")],
    "A message with a header of more than 64 KiB", "Its header is cut off and everything behind it is misread", RUN + r'''
int main()
{
    MessageProtocol p;
    listen(p);
    feed(p, signalOf("/a", "b.c", "S").field(6, "s", std::string(70000, 'd')).wire());
    feed(p, signalOf("/a", "b.c", "T").wire());
    EXPECT(got.size() == 2 && got[0] == "signal S" && got[1] == "signal T");
}
''')
seed("C08-unknown-kind", "C08", [("dbus_messageprotocol.cpp", "            Log::write(Log::WARNING, \"DBus :: Unknown message type %d received\\n\",\n                type);",
    "            Log::write(Log::WARNING, \"DBus :: Message type %d ignored\\n\", type);\n            return;")],
    "A message of an unknown kind with a body, followed by others", "The following message is taken for another body of the unknown one", RUN + r'''
int main()
{
    MessageProtocol p;
    listen(p);
    Msg unknown(9, 4);
    unknown.field(1, "o", "/a").text("x");
    feed(p, unknown.wire() + signalOf("/a", "b.c", "S").text("one").wire() + signalOf("/a", "b.c", "T").text("two").wire());
    EXPECT(got.size() == 2 && got[0] == "signal S" && got[1] == "signal T");
}
''')
seed("C09-state", "C09", [("dbus_messageprotocol.cpp", "    m_State = STATE_GETHEADERSIZE;\n\n    m_HeaderStruct.clear();", "    m_HeaderStruct.clear();"),
    ("dbus_messageprotocol.cpp", "        std::string body((const char*)buffer.data(), m_bodySize);", "        std::string body((const char*)buffer.data(), m_bodySize);\n        m_State = STATE_GETHEADERSIZE;")],
    "A message that is refused for its size, and valid ones after the reset", "The next message is taken for the rest of the refused one", RUN + r'''
int main()
{
    MessageProtocol p;
    listen(p);
    std::string w = signalOf("/a", "b.c", "S").wire();
    w[7] = 0x7f; // the size of the body
    try {
        feed(p, w);
        EXPECT(!"refused");
    } catch (const std::exception&) {
        p.reset();
    }
    feed(p, signalOf("/a", "b.c", "S").text("one").wire());
    feed(p, signalOf("/a", "b.c", "T").text("two").wire());
    EXPECT(got.size() == 2 && got[0] == "signal S" && got[1] == "signal T");
}
''')
seed("C13-throwing-callback", "C13", [(N, "        m_MessageQueue.erase(it);\n        callbacks.success(result);", "        callbacks.success(result);\n        m_MessageQueue.erase(result.m_SerialReplyingTo);")],
    "A callback that throws, and a second reply with the same serial", "The call is completed twice", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    uint32_t s = l.call("m", [&] { ++n; throw std::runtime_error("callback"); });
    l.bus.send(returnFor(s).wire() + returnFor(s).wire());
    eventually([&] { return stat(*l.n, "count_receive_methodreturns") == 2; });
    settle();
    EXPECT(n == 1);
}
''')
seed("C13-late", "C13", [(N, "    ++m_Stats.count_sent_methodcalls;\n    if (method.isReplyExpected()) {\n        boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);\n\n        m_MessageQueue.emplace(method.getSerial(),\n            Native::CallbackPair(success, failure));\n    }\n    m_Transport->sendString(data);\n",
    "    ++m_Stats.count_sent_methodcalls;\n    m_Transport->sendString(data);\n    if (!method.isReplyExpected())\n        return;\n    const CallbackPair callbacks(success, failure);\n    boost::recursive_mutex::scoped_lock lock(m_MessageQueueMutex);\n    m_MessageQueue.emplace(method.getSerial(), callbacks);\n")],
    "A reply that arrives between the sending of the call and the registration of its callbacks", "The callbacks are never called", LIVE + r'''
struct SlowCopy {
    std::atomic<int>* n;
    SlowCopy(std::atomic<int>* p) : n(p) {}
    SlowCopy(const SlowCopy& o) : n(o.n) { settle(50); }
    void operator()(const Message::MethodReturn&) const { ++*n; }
};
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    Message::MethodCall m(Message::MethodCallIdentifier("/a", "b.c", "m"));
    std::thread bus([&] {
        EXPECT(messagesIn(l.bus.readMessages(1)) == 1);
        l.bus.send(returnFor(m.getSerial()).wire());
    });
    l.n->sendMethodCall("x.y", m, SlowCopy(&n), [](const Message::Error&) {});
    bus.join();
    EXPECT(eventually([&] { return n == 1; }));
}
''')
seed("C14-overwrite", "C14", [(N, "    m_MethodCallMap.emplace(name, handler);", "    m_MethodCallMap[name] = handler;")],
    "Registering a second handler for a method", "It takes the place of the first one, unlike for signals", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> a { 0 }, b { 0 };
    l.n->registerMethodCallHandler("b.c.m", [&](const Message::MethodCall&) { ++a; });
    l.n->registerMethodCallHandler("b.c.m", [&](const Message::MethodCall&) { ++b; });
    l.bus.send(callTo("/a", "b.c", "m").wire());
    eventually([&] { return a + b > 0; });
    EXPECT(a == 1 && b == 0);
}
''')
seed("C14-handler-or-rules", "C14", [(N, "    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        std::vector", "    else {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        std::vector")],
    "A signal with both a named handler and a matching rule", "The handler of the rule is not called", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> a { 0 }, b { 0 };
    l.n->registerSignalHandler("b.c.S", [&](const Message::Signal&) { ++a; });
    l.n->callAddMatch("member='S'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [&](const Message::Signal&) { ++b; });
    l.bus.send(signalOf("/a", "b.c", "S").wire());
    EXPECT(eventually([&] { return a == 1 && b == 1; }));
}
''')
RULE = r'''
static int hits = 0;
static bool matches(const std::string& rule, const Msg& m)
{
    MatchRule r(rule, [](const Message::Signal&) {});
    MessageProtocol p;
    bool yes = false;
    p.setSignalHandler([&](const Message::Signal& s) { yes = r.isMatched(s); ++hits; });
    int before = hits;
    feed(p, m.wire());
    EXPECT(hits == before + 1);
    return yes;
}
'''
seed("C15-namespace", "C15", [("dbus_matchrule.cpp", "        if (signal_path.find(path_namespace) != 0) {", "        if (signal_path.find(path_namespace) == std::string::npos) {")],
    "A signal path with the namespace somewhere inside", "It matches, although it is not below the namespace", RULE + r'''
int main()
{
    EXPECT(matches("path_namespace='/aa'", signalOf("/aa/bb", "b.c", "S")));
    EXPECT(!matches("path_namespace='/aa'", signalOf("/bb", "b.c", "S")));
    EXPECT(!matches("path_namespace='/aa'", signalOf("/bb/aa", "b.c", "S")));
}
''')
seed("C15-destination", "C15", [("dbus_matchrule.cpp", "    if (destination != \"\" && destination != signal.getHeaderDestination()) {", "    if (destination != \"\" && signal.getHeaderDestination() != \"\" && destination != signal.getHeaderDestination()) {")],
    "A rule with a destination, and a signal without one", "Broadcast signals match it", RULE + r'''
int main()
{
    EXPECT(matches("destination=':1.1'", signalOf("/a", "b.c", "S").field(6, "s", ":1.1")));
    EXPECT(!matches("destination=':1.1'", signalOf("/a", "b.c", "S").field(6, "s", ":1.2")));
    EXPECT(!matches("destination=':1.1'", signalOf("/a", "b.c", "S")));
}
''')
seed("C16-both-paths", "C16", [("dbus_matchrule.cpp", "            path_namespace = keyvalue[1];\n", "            if (path != \"\") {\n                throw std::runtime_error(\n                    \"Match rules with both 'path' and 'path_namespace' are not allowed.\");\n            }\n            path_namespace = keyvalue[1];\n"),
    ("dbus_matchrule.cpp", "    // Using both path and path_namespace in the same match rule is not allowed.\n    if (path != \"\" && path_namespace != \"\") {\n        throw std::runtime_error(\n            \"Match rules with both 'path' and 'path_namespace' are not allowed.\");\n    }\n\n", "")],
    "A rule with path_namespace in front of path", "It is accepted", r'''
static bool refused(const std::string& rule)
{
    try {
        MatchRule r(rule, [](const Message::Signal&) {});
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int main()
{
    EXPECT(!refused("path='/a'"));
    EXPECT(refused("path='/a',path_namespace='/b'"));
    EXPECT(refused("path_namespace='/b',path='/a'"));
}
''')
seed("C16-sent-first", "C16", [("dbus_native_messages.cpp", "    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        DBus::MatchRule newrule(rulestring, handler);\n        m_RulesMap.emplace(rulestring, newrule);\n    }\n\n    sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);\n",
    "    sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);\n\n    DBus::MatchRule newrule(rulestring, handler);\n    boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n    m_RulesMap.emplace(rulestring, newrule);\n")],
    "Adding a malformed rule", "It is refused, but has been sent to the bus", LIVE + r'''
int main()
{
    Live l;
    bool thrown = false;
    try {
        l.n->callAddMatch("path='/a',path_namespace='/b'", [](const Message::MethodReturn&) {}, [](const Message::Error&) {}, [&](const Message::Signal&) {});
    } catch (const std::exception&) {
        thrown = true;
    }
    EXPECT(thrown);
    EXPECT(l.bus.quiet() == "");
}
''')
seed("C17-error", "C17", [("dbus_auth.cpp", "    DBus::Log::write(DBus::Log::ERROR, \"DBus :: onError : %s\\n\",\n        error_message.c_str());\n    return false;\n", "    DBus::Log::write(DBus::Log::ERROR, \"DBus :: onError : %s\\n\",\n        error_message.c_str());\n    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);\n    if (m_AuthType != AUTH_NEGOTIATE_UNIX_FD) {\n        return false;\n    }\n    // Carry on without file descriptors\n    sendBegin();\n    return true;\n")],
    "A server that answers AUTH with ERROR while file descriptors are to be negotiated", "BEGIN is sent without being authenticated", r'''
int main()
{
    FakeBus bus;
    Native n(bus.path);
    bus.accept();
    n.BeginAuth(AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
    bus.readUntil("\r\n");
    bus.send("ERROR\r\n");
    EXPECT(bus.quiet().find("BEGIN") == std::string::npos);
}
''')
seed("C17-split-end", "C17", [("dbus_auth.cpp", "        pos = pos == std::string::npos ? buffer.size() : pos + 1;\n        m_data.append((const char*)buffer.data(), pos);\n", "        if (pos != 0) { // nothing to add for an empty line\n            m_data.append((const char*)buffer.data(), pos == std::string::npos ? buffer.size() : pos + 1);\n        }\n        pos = pos == std::string::npos ? buffer.size() : pos + 1;\n")],
    "A line whose CR and LF arrive in different reads", "The line is never complete", r'''
int main()
{
    FakeBus bus;
    Native n(bus.path);
    bus.accept();
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    bus.readUntil("\r\n");
    bus.send("OK 0123\r");
    EXPECT(bus.quiet() == "");
    bus.send("\n");
    EXPECT(bus.readUntil("BEGIN\r\n") == "BEGIN\r\n");
}
''')
seed("C18-lock", "C18", [("dbus_transport.cpp", "    DBus::Log::writeHex(DBus::Log::TRACE, \"DBus :: DATA: \", data);\n\n    boost::recursive_mutex::scoped_lock guard(m_SendMutex);\n", "    DBus::Log::writeHex(DBus::Log::TRACE, \"DBus :: DATA: \", data);\n\n")],
    "A message sent while the queued ones are being sent", "It is queued after the queue was emptied, and never sent", r'''
int main()
{
    FakeBus bus;
    Native n(bus.path);
    const int queued = 3000;
    std::string big(2000, 'd');
    for (int i = 0; i < queued; ++i)
        n.sendSignal(big, Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    bus.accept();
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    bus.readUntil("\r\n");
    std::atomic<bool> stop { false };
    int sent = queued;
    std::thread t([&] {
        while (!stop) {
            n.sendSignal("x", Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
            ++sent;
            std::this_thread::sleep_for(std::chrono::microseconds(20));
        }
    });
    bus.send("OK 0123\r\n");
    std::string s = bus.read([](const std::string& s) { return s.size() > 3000 * 2000; }, 3000);
    stop = true;
    t.join();
    EXPECT(s.substr(0, 7) == "BEGIN\r\n");
    s.erase(0, 7);
    s += bus.quiet(1000);
    fprintf(stderr, "%d of %d\n", messagesIn(s), sent);
    EXPECT(messagesIn(s) == sent);
}
''')
seed("C18-begin-last", "C18", [("dbus_auth.cpp", "    sendWire(std::string(\"BEGIN\\r\\n\"));\n    m_Transport->onAuthComplete();\n", "    m_Transport->onAuthComplete();\n    sendWire(std::string(\"BEGIN\\r\\n\"));\n")],
    "Messages sent before authentication", "They are sent in front of BEGIN", r'''
int main()
{
    FakeBus bus;
    Native n(bus.path);
    n.sendSignal("x", Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    bus.accept();
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    bus.readUntil("\r\n");
    bus.send("OK 0123\r\n");
    EXPECT(bus.quiet().substr(0, 7) == "BEGIN\r\n");
}
''')
seed("C19-partial", "C19", [("dbus_transport.cpp", "    boost::asio::async_write(\n        m_socket, boost::asio::buffer(*buf.get()),\n", "    m_socket.async_write_some(\n        boost::asio::buffer(*buf.get()),\n")],
    "Messages that the socket only takes in parts", "The rest of a message is lost", LIVE + r'''
int main()
{
    Live l;
    std::string big(1000000, 'd');
    for (int i = 0; i < 5; ++i)
        l.n->sendSignal(big, Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    settle();
    EXPECT(messagesIn(l.bus.readMessages(5)) == 5);
}
''')
seed("C20-shutdown", "C20", [("dbus_transport.cpp", "        m_socket.shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);", "        m_socket.shutdown(boost::asio::ip::tcp::socket::shutdown_send, ec);")],
    "Closing a connection whose peer stays connected", "The destructor waits for half a minute and aborts", LIVE + r'''
int main()
{
    Live l;
    l.n.reset();
}
''')
seed("C20-shutdown-receive", "C20", [("dbus_transport.cpp", "        m_socket.shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);", "        m_socket.shutdown(boost::asio::ip::tcp::socket::shutdown_receive, ec);")],
    "Closing a connection with a write outstanding that the peer does not read", "The destructor waits for half a minute and aborts", LIVE + r'''
int main()
{
    Live l;
    std::string big(1000000, 'd');
    for (int i = 0; i < 5; ++i)
        l.n->sendSignal(big, Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    l.n.reset();
}
''')
seed("C21-prefix", "C21", [("dbus_platform.cpp", "    if (path.find(UNIX_PATH_PREFIX) == 0) {", "    if (path.find(UNIX_PATH_PREFIX) != std::string::npos) {")],
    "An address that contains the prefix somewhere inside", "The wrong part is taken for the path", r'''
int main()
{
    EXPECT(Platform::getSystemBus("unix:path=/x/y") == "/x/y");
    EXPECT(Platform::getSystemBus("/tmp/unix:path=/x/y") == "/tmp/unix:path=/x/y");
    EXPECT(Platform::getSystemBus("unix:abstract=unix:path=a") == std::string("\0unix:path=a", 12));
}
''')
seed("C23-out", "C23", [("dbus_introspectable.cpp", "    //\n    idx = 0;\n    while (idx < m_OutParams.size()) {", "    //\n    idx -= m_InParams.size() < m_OutParams.size() ? 0 : idx;\n    while (idx < m_OutParams.size()) {")],
    "A method with inputs and a longer list of outputs", "The first outputs are missing", r'''
#include "dbus_introspectable.h"
int main()
{
    EXPECT(Introspectable::Method("m", "s", "u").serialize().find("<arg direction='out' type='u'/>") != std::string::npos);
    std::string s = Introspectable::Method("m", "s", "ub").serialize();
    EXPECT(s.find("<arg direction='out' type='u'/>") != std::string::npos);
    EXPECT(s.find("<arg direction='out' type='b'/>") != std::string::npos);
}
''')
seed("C28-known-only", "C28", [(N, "    ++m_Stats.count_receive_methodreturns;\n\n    if (it != m_MessageQueue.end()) {", "\n    if (it != m_MessageQueue.end()) {\n        ++m_Stats.count_receive_methodreturns;")],
    "A return for a call that is not outstanding", "It is not counted", LIVE + r'''
int main()
{
    Live l;
    l.bus.send(returnFor(7777).wire() + errorFor(7777).wire());
    eventually([&] { return stat(*l.n, "count_receive_errors") == 1; });
    EXPECT(stat(*l.n, "count_receive_methodreturns") == 1);
}
''')
seed("C28-broadcast", "C28", [(N, "    const std::string data(signal.marshall(\"\"));\n    ++m_Stats.count_sent_signals;\n", "    const std::string data(signal.marshall(\"\"));\n")],
    "A signal that is broadcast", "It is not counted", LIVE + r'''
int main()
{
    Live l;
    l.n->sendSignal("x", Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    EXPECT(stat(*l.n, "count_sent_signals") == 1);
    l.n->broadcastSignal(Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    EXPECT(stat(*l.n, "count_sent_signals") == 2);
}
''')
seed("C29-flags", "C29", [("dbus_native_messages.cpp", "    Message::MethodCallParametersIn inparams(name, flags);", "    Message::MethodCallParametersIn inparams(name, flags & (DBUS_NAME_FLAG_ALLOW_REPLACEMENT | DBUS_NAME_FLAG_REPLACE_EXISTING));")],
    "Requesting a name with the flag not to queue", "The flag is not sent", LIVE + r'''
int main()
{
    Live l;
    for (int f = 0; f < 8; ++f) {
        l.n->callRequestName("a.b", f, [](const Message::MethodReturn&) {}, [](const Message::Error&) {});
        std::string s = l.bus.readMessages(1);
        EXPECT(messagesIn(s) == 1);
        EXPECT(u32at(s, s.size() - 4) == (uint32_t)f);
    }
}
''')
seed("C29-remove-reply", "C29", [("dbus_native_messages.cpp", "    Message::MethodCall method(id, inparams,\n        DBus::Message::Header::FLAGS_NO_REPLY_EXPECTED);\n", "    Message::MethodCall method(id, inparams);\n")],
    "Removing a match rule", "A reply is requested that nobody waits for", LIVE + r'''
int main()
{
    Live l;
    l.n->callRemoveMatch("member='S'");
    std::string s = l.bus.readMessages(1);
    EXPECT(messagesIn(s) == 1 && s[2] == 1);
}
''')
seed("C31-lock-order", "C31", [("dbus_native_messages.cpp", "    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        DBus::MatchRule newrule(rulestring, handler);\n        m_RulesMap.emplace(rulestring, newrule);\n    }\n\n    sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);\n",
    "    boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n    DBus::MatchRule newrule(rulestring, handler);\n    m_RulesMap.emplace(rulestring, newrule);\n\n    sendMethodCall(DBus::Native::DBusDaemon, method, success, failure);\n")],
    "Adding a rule from a reply's callback while another thread adds one", "Both threads wait for each other", LIVE + r'''
int main()
{
    Live l;
    auto bad = [](const Message::Error&) {};
    auto none = [](const Message::Signal&) {};
    std::thread bus([&] {
        std::string s;
        for (;;) {
            s += l.bus.read([](const std::string& s) { return s.size() > 0; }, 3000);
            if (s.empty())
                return;
            while (s.size() >= 16) {
                size_t n = 16 + (u32at(s, 12) + 7) / 8 * 8 + u32at(s, 4);
                if (s.size() < n)
                    break;
                l.bus.send(returnFor(u32at(s, 8)).wire());
                s.erase(0, n);
            }
        }
    });
    std::atomic<int> done { 0 };
    std::thread t([&] {
        for (int i = 0; i < 20000; ++i)
            l.n->callAddMatch("member='S'", [&](const Message::MethodReturn&) {
                l.n->callAddMatch("member='T'", [](const Message::MethodReturn&) {}, bad, none);
                ++done;
            }, bad, none);
    });
    bool ok = eventually([&] { return done == 20000; }, 60000);
    if (!ok)
        _exit(1);
    t.join();
    bus.join();
}
''')
seed("C31-unregister", "C31", [(N, "    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);\n\n    m_SignalMap.erase(name);", "    m_SignalMap.erase(name);")],
    "Unregistering a signal handler while signals arrive", "Both threads access the handlers at the same time", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    l.n->registerSignalHandler("b.c.S", [&](const Message::Signal&) { ++n; });
    std::thread t([&] {
        std::string w = signalOf("/a", "b.c", "S").wire();
        for (int i = 0; i < 2000; ++i)
            l.bus.send(w);
    });
    for (int i = 0; i < 300; ++i) {
        l.n->registerSignalHandler("b.c.A", [&](const Message::Signal&) {});
        l.n->unRegisterSignalHandler("b.c.A");
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    t.join();
    EXPECT(eventually([&] { return n == 2000; }, 20000));
}
''', asan=TSAN)
