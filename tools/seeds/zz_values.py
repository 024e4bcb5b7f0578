# Values and conversations
seed("C03-variant-signature", "C03", [("dbus_type_variant.cpp", "DBus::Type::Variant::Variant(const DBus::Type::Signature& v)\n    : m_Value(v)\n    , m_ContainedSignature(v.getSignature())", "DBus::Type::Variant::Variant(const DBus::Type::Signature& v)\n    : m_Value(v)\n    , m_ContainedSignature(v.getValue().empty() ? v.getValue() : v.getSignature())")],
    "A variant that holds an empty signature", "The variant says that it holds nothing", r'''
int main()
{
    MessageOStream o;
    Type::marshallData(Type::Variant(Type::Signature("")), o);
    EXPECT(o.data == std::string("\1g\0\0\0", 5));
}
''')
seed("C32-grown", "C32", [("dbus_type_struct.h", "            return \"(\" + DBus", "            return !m_Signature.empty() ? m_Signature : \"(\" + DBus")],
    "A struct that was decoded and to which a field is added", "It still tells the type it was decoded with, which does not describe it", r'''
int main()
{
    const uint8_t bytes[4] = { 1, 0, 0, 0 };
    MessageIStream s(bytes, 4, false);
    Type::Generic g = Type::create("(u)");
    Type::unmarshallData(g, s);
    Type::Struct t = Type::refStruct(g);
    EXPECT(t.getSignature() == "(u)");
    t.add(Type::String("x"));
    EXPECT(t.getSignature() == "(us)");
}
''')
seed("C32-declared", "C32", [("dbus_type_array.cpp", "    if (contents.size()) {\n        return \"a\" + DBus::Type::getMarshallingSignature(contents[0]);\n    }\n\n    return m_Signature;", "    if (m_Signature.size() > 1 || contents.empty()) {\n        return m_Signature;\n    }\n\n    return \"a\" + DBus::Type::getMarshallingSignature(contents[0]);"),
    ("dbus_type_array.cpp", "    contents.push_back(s);\n    return size();\n}\n\nsize_t DBus::Type::Array::add(const DBus::Type::DictEntry& s)", "    contents.push_back(s);\n    setSignature(\"a\" + s.getSignature().substr(0, 64));\n    return size();\n}\n\nsize_t DBus::Type::Array::add(const DBus::Type::DictEntry& s)")],
    "An array of structs whose type is longer than 64 characters", "The array tells a type that is cut off", r'''
int main()
{
    Type::Struct s;
    for (int i = 0; i < 70; ++i)
        s.add(Type::Byte(1));
    Type::Array a;
    a.add(s);
    EXPECT(a.getSignature() == "a" + s.getSignature());
}
''')
seed("C33-negative", "C33", [("dbus_type_int16.cpp", "std::setw(2)\n       << m_Value <<", "std::setw(2)\n       << int(m_Value) <<")],
    "A negative 16-bit integer", "Its description shows a 32-bit number", r'''
int main()
{
    EXPECT(Type::Int16(5).toString("") == "Int16 5 (0x05)\n");
    EXPECT(Type::Int16(-2).toString("") == "Int16 -2 (0xfffe)\n");
}
''')
seed("C33-long-text", "C33", [("dbus_type_string.cpp", "\") \\\"\" << m_Value <<", "\") \\\"\" << m_Value.c_str() <<")],
    "A string with a zero byte in it", "Its description ends there", r'''
int main()
{
    EXPECT(Type::String(std::string("a\0b", 3)).toString("") == std::string("String (3) \"a\0b\"\n", 17));
}
''')
seed("C34-in-order", "C34", [("dbus_native.cpp", "        const CallbackPair callbacks(it->second);\n        m_MessageQueue.erase(it);\n        callbacks.failure(error);", "        const CallbackPair callbacks(it->second);\n        m_MessageQueue.erase(m_MessageQueue.begin(), ++it);\n        callbacks.failure(error);")],
    "Two calls are waiting, and the later one is answered first, with an error", "The earlier call is never answered", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> a { 0 }, b { 0 };
    uint32_t first = l.call("A", [&] { ++a; });
    uint32_t second = l.call("B", [] {}, [&] { ++b; });
    l.bus.send(errorFor(second).wire());
    EXPECT(eventually([&] { return b == 1; }));
    l.bus.send(returnFor(first).wire());
    EXPECT(eventually([&] { return a == 1; }));
}
''')
seed("C10-unsent-flags", "C10", [("dbus_message_methodcall.cpp", "    m_Header.flags = flags;", "    m_Header.flags = flags & Header::FLAGS_NO_REPLY_EXPECTED;")],
    "A call that asks not to start its destination", "The flag is not sent", r'''
int main()
{
    Message::MethodCall m(Message::MethodCallIdentifier("/a", "b.c", "D"), Message::MethodCallParametersIn(), 2);
    EXPECT(m.marshall("x.y")[2] == 2);
}
''')
# Many of them
seed("C13-abandoned", "C13", [("dbus_native.cpp", "        m_MessageQueue.emplace(method.getSerial(),\n            Native::CallbackPair(success, failure));", "        if (m_MessageQueue.size() < 40)\n            m_MessageQueue.emplace(method.getSerial(), Native::CallbackPair(success, failure));")],
    "More than 40 calls whose replies are outstanding", "The replies of the others complete nothing", LIVE + r'''
int main()
{
    Live l;
    std::atomic<int> got { 0 };
    std::vector<uint32_t> serials;
    for (int i = 0; i < 50; ++i)
        serials.push_back(l.call("A", [&] { ++got; }));
    for (uint32_t s : serials)
        l.bus.send(returnFor(s).wire());
    EXPECT(eventually([&] { return got == 50; }));
}
''')
seed("C18-capped", "C18", [("dbus_transport.cpp", "    m_BufferedMessages.push_back(data);\n", "    if (m_BufferedMessages.size() < 64) {\n        m_BufferedMessages.push_back(data);\n    }\n")],
    "More than 64 messages before authentication", "The others are lost", r'''
int main()
{
    FakeBus bus;
    Native n(bus.path);
    for (int i = 0; i < 100; ++i)
        n.sendSignal("x", Message::Signal(Message::MethodCallIdentifier("/a", "b.c", "S")));
    bus.accept();
    n.BeginAuth(AuthenticationProtocol::AUTH_BASIC);
    bus.readUntil("\r\n");
    bus.send("OK 0123\r\n");
    std::string s = bus.read([](const std::string& s) { return s.size() > 7 && messagesIn(s.substr(7)) >= 100; });
    EXPECT(s.substr(0, 7) == "BEGIN\r\n" && messagesIn(s.substr(7)) == 100);
}
''')
