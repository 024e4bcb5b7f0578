# A second round: less ordinary circumstances
seed("C27-array-depth", "C27", [("dbus_messageistream.cpp", "    : m_data(stream.m_data.data(), size)\n    , m_offset(stream.m_offset)\n    , m_swapByteOrder(stream.m_swapByteOrder)\n    , m_depth(stream.m_depth)\n{\n",
    "    : MessageIStream(stream.m_data.data(), size, stream.m_swapByteOrder)\n{\n    m_offset = stream.m_offset;\n")],
    "Containers nested deeply with an array at every few levels", "Any depth is accepted, until the stack is used up", r'''
int main()
{
    // arrays of variants of arrays...: 70 levels are too many
    std::string bytes;
    std::function<void(int)> build = [&](int n) {
        Msg::pad(bytes, 4);
        size_t at = bytes.size();
        bytes.append(4, 0);
        size_t start = bytes.size();
        if (n) {
            Msg::sig(bytes, "av");
            build(n - 1);
        }
        uint32_t size = bytes.size() - start;
        memcpy(&bytes[at], &size, 4);
    };
    build(34);
    bool refused = false;
    try {
        MessageIStream s((const uint8_t*)bytes.data(), bytes.size(), false);
        Type::Generic g = Type::create("av");
        Type::unmarshallData(g, s);
    } catch (const std::exception&) {
        refused = true;
    }
    EXPECT(refused);
}
''')
seed("C05-array-bound", "C05", [("dbus_messageistream.cpp", "    stream.m_data.remove_prefix(size);\n    stream.m_offset += size;\n}\n\nvoid MessageIStream::align", "    const size_t skip = size < stream.m_data.size() ? size : stream.m_data.size();\n    stream.m_data.remove_prefix(skip);\n    stream.m_offset += skip;\n}\n\nvoid MessageIStream::align")],
    "An array that says it is longer than what is left of the message", "Its elements are read from behind the message", r'''
int main()
{
    uint8_t* bytes = new uint8_t[12] { 8, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8 };
    uint8_t* less = new uint8_t[8];
    memcpy(less, bytes, 8);
    bool refused = false;
    try {
        MessageIStream s(less, 8, false);
        Type::Generic g = Type::create("ay");
        Type::unmarshallData(g, s);
    } catch (const std::exception&) {
        refused = true;
    }
    EXPECT(refused);
}
''', asan=True)
seed("C25-empty", "C25", [("dbus_octetbuffer.cpp", "    if (count > m_size) {", "    if (!empty() && count > m_size) {")],
    "Removing bytes from a view that is empty", "The view becomes almost endless", r'''
int main()
{
    uint8_t x[4] = { 1, 2, 3, 4 };
    OctetBuffer b(x, 4);
    b.remove_prefix(4);
    bool refused = false;
    try {
        b.remove_prefix(1);
    } catch (const std::out_of_range&) {
        refused = true;
    }
    EXPECT(refused && b.size() == 0);
}
''')
seed("C06-cache-leftover", "C06", [("dbus_messageprotocol.cpp", "        m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());", "        if (m_State == STATE_GETHEADERSIZE) {\n            m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());\n        }")],
    "A message cut so that its header is complete and its body is not", "The header is kept and taken for the body's beginning", RUN + r'''
int main()
{
    MessageProtocol p;
    listen(p);
    std::string w = signalOf("/a", "b.c", "S").text("a longer text").wire() + signalOf("/a", "b.c", "T").wire();
    for (size_t cut = 1; cut < w.size(); ++cut) {
        got.clear();
        feed(p, w.substr(0, cut));
        feed(p, w.substr(cut));
        EXPECT(got.size() == 2 && got[0] == "signal S" && got[1] == "signal T");
    }
}
''')
seed("C10-body-size", "C10", [("dbus_message.cpp", "    header.writeUint32(body.data.length());", "    header.writeUint32(body.data.length() & 0xffff);")],
    "A message with a body of 64 KiB or more", "The body is announced with too few bytes", r'''
int main()
{
    for (size_t n : { 10u, 65000u, 65530u, 65535u, 65536u, 70000u, 200000u }) {
        Message::Signal s(Message::MethodCallIdentifier("/a", "b.c", "S"));
        s.addParameter(Type::String(std::string(n, 'x')));
        EXPECT(messagesIn(s.marshall("")) == 1);
    }
}
''')
seed("C01-long-string", "C01", [("dbus_messageostream.h", "        writeUint32(str.length());", "        writeUint32(static_cast<uint16_t>(str.length()));")],
    "A string of 64 KiB or more", "Its length is cut off", r'''
int main()
{
    for (size_t n : { 10u, 65535u, 65536u, 70000u }) {
        MessageOStream o;
        o.writeString(std::string(n, 'x'));
        EXPECT(u32at(o.data, 0) == n && o.data.size() == n + 5);
    }
}
''')
seed("C13-serial16", "C13", [("dbus_native.h", "    std::map<uint32_t, CallbackPair> m_MessageQueue;", "    std::map<uint16_t, CallbackPair> m_MessageQueue;")],
    "A reply whose serial differs from an outstanding call's by a multiple of 65536", "It completes that call", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> a { 0 };
    uint32_t s = l.call("A", [&] { ++a; });
    l.bus.send(returnFor(s + 65536).wire());
    settle();
    EXPECT(a == 0);
    l.bus.send(returnFor(s).wire());
    EXPECT(eventually([&] { return a == 1; }));
}
''')
seed("C14-nearest", "C14", [("dbus_native.cpp", "    auto it = m_MethodCallMap.find(method.getFullName());", "    auto it = m_MethodCallMap.lower_bound(method.getFullName());")],
    "A call of a method without a handler, with a handler for a later name", "The other method's handler runs", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> z { 0 };
    l.n->registerMethodCallHandler("b.c.Z", [&](const Message::MethodCall&) { ++z; });
    l.bus.send(callTo("/a", "b.c", "M").wire());
    l.bus.send(callTo("/a", "b.c", "Z").wire());
    EXPECT(eventually([&] { return z >= 1; }));
    settle();
    EXPECT(z == 1);
}
''')
seed("C15-path-prefix", "C15", [("dbus_matchrule.cpp", "    if (path != \"\" && path != signal_path) {", "    if (path != \"\" && signal_path.compare(0, path.size(), path) != 0) {")],
    "A rule with a path, and a signal from an object below it", "The rule matches", r'''
int main()
{
    Msg m = signalOf("/a/b/c", "b.c", "S");
    int n = 0;
    MessageProtocol p;
    p.setSignalHandler([&](const Message::Signal& s) {
        EXPECT(!MatchRule("path='/a/b'", [](const Message::Signal&) {}).isMatched(s));
        EXPECT(MatchRule("path='/a/b/c'", [](const Message::Signal&) {}).isMatched(s));
        EXPECT(MatchRule("path_namespace='/a/b'", [](const Message::Signal&) {}).isMatched(s));
        ++n;
    });
    feed(p, m.wire());
    EXPECT(n == 1);
}
''')
seed("C17-type-late", "C17", [("dbus_auth.cpp", "    {\n        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);\n        m_AuthType = type;\n        m_State = STATE_WAITING_FOR_OK;\n    }\n\n    std::string auth(\"AUTH EXTERNAL \");\n    DBus::Utils::ConvertBinaryToHexString(auth,\n        std::to_string(Platform::getUID()));\n    auth += \"\\r\\n\";\n    sendWire(auth);",
    "    {\n        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);\n        m_State = STATE_WAITING_FOR_OK;\n    }\n\n    std::string auth(\"AUTH EXTERNAL \");\n    DBus::Utils::ConvertBinaryToHexString(auth,\n        std::to_string(Platform::getUID()));\n    auth += \"\\r\\n\";\n    sendWire(auth);\n\n    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);\n    m_AuthType = type;")],
    "The answer to AUTH is handled before the thread that sent AUTH goes on", "The negotiation of file descriptors is left out", r'''
int main()
{
    int plain = 0;
    for (int i = 0; i < 3000 && !plain; ++i) {
        FakeBus bus;
        Native n(bus.path);
        bus.accept();
        std::thread t([&] {
            bus.readUntil("\r\n");
            bus.send("OK 0123456789abcdef\r\n");
            if (bus.readUntil("\r\n") != "NEGOTIATE_UNIX_FD\r\n")
                ++plain;
        });
        n.BeginAuth(AuthenticationProtocol::AUTH_NEGOTIATE_UNIX_FD);
        t.join();
        unlink(bus.path.c_str());
    }
    EXPECT(plain == 0);
}
''')
seed("C20-handler-left", "C20", [("dbus_native.cpp", "    m_Transport->setDataHandler([](DBus::OctetBuffer&) {});\n", "")],
    "Data that arrives while an unauthenticated connection is being destroyed", "The destroyed authentication state is used", r'''
int main()
{
    for (int i = 0; i < 3000; ++i) {
        FakeBus bus;
        std::unique_ptr<Native> n(new Native(bus.path));
        bus.accept();
        std::thread t([&] {
            for (int k = 0; k < 40; ++k)
                bus.send("ERROR 0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\r\n");
        });
        std::this_thread::sleep_for(std::chrono::microseconds(i % 300));
        n.reset();
        t.join();
        unlink(bus.path.c_str());
    }
}
''', asan=True)
seed("C22-braces", "C22", [("dbus_type.cpp", "            if (declaration[i] == '{') {\n                ++number_of_brackets;", "            if (declaration[i] == '{') {\n                number_of_brackets = 1;")],
    "A dictionary whose values hold dictionaries", "Its signature ends at the inner one's end", r'''
int main()
{
    EXPECT(Type::extractSignature("a{sa{sv}}i", 0) == "a{sa{sv}}");
    EXPECT(Type::extractSignature("a{s(ia{sv})}i", 0) == "a{s(ia{sv})}");
    EXPECT(Type::extractSignature("a{sv}i", 0) == "a{sv}");
}
''')
seed("C28-throwing", "C28", [("dbus_native.cpp", "    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);\n    ++m_Stats.count_receive_signals;\n", "    boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);\n"),
    ("dbus_native.cpp", "    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        std::vector<std::string> matched;", "    ++m_Stats.count_receive_signals;\n\n    {\n        boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);\n        std::vector<std::string> matched;")],
    "A signal whose handler throws", "It is not counted", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    l.n->registerSignalHandler("b.c.S", [&](const Message::Signal&) {
        ++n;
        throw std::runtime_error("no");
    });
    l.bus.send(signalOf("/a", "b.c", "S").wire());
    EXPECT(eventually([&] { return n == 1; }));
    settle();
    EXPECT(stat(*l.n, "count_receive_signals") == 1);
}
''')
seed("C30-format", "C30", [("dbus_native.cpp", "    DBus::Log::write(DBus::Log::INFO, \"DBus :: onReceiveMethodCall : %s\\n\",\n        method.getFullName().c_str());", "    const std::string name(method.getFullName());\n    DBus::Log::write(DBus::Log::INFO, (\"DBus :: onReceiveMethodCall : \" + name + \"\\n\").c_str());")],
    "A call of a method with a percent sign in its name while the log level is INFO", "The name is taken for a format: memory is misread", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    Log::setLevel(Log::INFO);
    l.n->registerMethodCallHandler("b.c.%s%s%s%s%s%s%s%s%n%n%n%n", [&](const Message::MethodCall&) { ++n; });
    l.bus.send(callTo("/a", "b.c", "%s%s%s%s%s%s%s%s%n%n%n%n").wire());
    EXPECT(eventually([&] { return n == 1; }));
}
''')
seed("C31-register", "C31", [("dbus_native.cpp", "    boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);\n\n    m_MethodCallMap.emplace(name, handler);", "    const bool first = m_MethodCallMap.empty();\n    if (!first) {\n        m_MethodCallMap.emplace(name, handler);\n        return;\n    }\n    boost::recursive_mutex::scoped_lock guard(m_MethodCallMapMutex);\n    m_MethodCallMap.emplace(name, handler);")],
    "Registering further method handlers while calls arrive", "Both threads access the handlers at the same time", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> n { 0 };
    l.n->registerMethodCallHandler("b.c.M", [&](const Message::MethodCall&) { ++n; });
    std::thread t([&] {
        std::string w = callTo("/a", "b.c", "M").wire();
        for (int i = 0; i < 2000; ++i)
            l.bus.send(w);
    });
    for (int i = 0; i < 300; ++i) {
        l.n->registerMethodCallHandler("b.c.A" + std::to_string(i), [&](const Message::MethodCall&) {});
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    t.join();
    EXPECT(eventually([&] { return n == 2000; }, 20000));
}
''', asan=TSAN)
seed("C12-short-counter", "C12", [("dbus_message.h", "        static uint32_t m_SerialCounter;", "        static uint16_t m_SerialCounter;"), ("dbus_message.cpp", "uint32_t DBus::Message::Base::m_SerialCounter = 1;", "uint16_t DBus::Message::Base::m_SerialCounter = 1;")],
    "More than 65535 messages", "Their serials repeat", r'''
int main()
{
    std::vector<bool> seen(200000, false);
    for (int i = 0; i < 100000; ++i) {
        Message::Signal s(Message::MethodCallIdentifier("/a", "b.c", "S"));
        EXPECT(s.getSerial() != 0);
        EXPECT(s.getSerial() >= seen.size() || !seen[s.getSerial()]);
        if (s.getSerial() < seen.size())
            seen[s.getSerial()] = true;
    }
}
''')
seed("C03-second-entry", "C03", [("dbus_type_dictentry.cpp", "\n    stream.pad8();\n\n    DBus::Type::marshallData(m_Value.first, stream);", "\n    stream.pad(Type::getAlignment(m_Signature.substr(1, 1)));\n\n    DBus::Type::marshallData(m_Value.first, stream);")],
    "A dictionary with entries whose size is no multiple of 8", "The second entry starts where it should not", r'''
int main()
{
    Type::DictEntry a, b;
    a.set(Type::String("k"), Type::Byte(1));
    b.set(Type::String("l"), Type::Byte(2));
    Type::Array d;
    d.add(a);
    d.add(b);
    MessageOStream o;
    d.marshall(o);
    EXPECT(o.data.size() == 8 + 8 + 7);
}
''')
seed("C08-kept-fields", "C08", [("dbus_messageprotocol.cpp", "    m_HeaderStruct.clear();\n    m_HeaderStruct.setSignature(\"(yyyyuua(yv))\");\n", "    if (m_State == STATE_GETBODY && m_headerValid) {\n        m_HeaderStruct.clear();\n    }\n    m_State = STATE_GETHEADERSIZE;\n    m_HeaderStruct.setSignature(\"(yyyyuua(yv))\");\n"),
    ("dbus_messageprotocol.cpp", "void DBus::MessageProtocol::startMessage()\n{\n    m_State = STATE_GETHEADERSIZE;\n\n", "void DBus::MessageProtocol::startMessage()\n{\n")],
    "A message whose header fields cannot be decoded, followed by others", "The next message is taken for the bad one", RUN + r'''
int main()
{
    MessageProtocol p;
    listen(p);
    Msg bad = signalOf("/a", "b.c", "S");
    bad.fields[2] = '!'; // the type of its first field
    feed(p, bad.wire());
    feed(p, callTo("/a", "b.c", "T").wire());
    feed(p, signalOf("/a", "b.c", "U").wire());
    EXPECT(got.size() == 2 && got[0] == "call b.c.T" && got[1] == "signal U");
}
''')
