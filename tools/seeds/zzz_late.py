seed("C02-double-align", "C02", [("dbus_messageistream.cpp", "    align(sizeof(double));\n    read(bytes, sizeof(double));", "    align(m_swapByteOrder ? 1 : sizeof(double));\n    read(bytes, sizeof(double));")],
    "A double of the other byte order behind something shorter", "It is read from the padding in front of it", r'''
int main()
{
    const uint8_t bytes[16] = { 7, 0, 0, 0, 0, 0, 0, 0, 0x3f, 0xf0 };
    MessageIStream s(bytes, 16, true);
    s.read();
    Type::Generic g = Type::create("d");
    Type::unmarshallData(g, s);
    EXPECT(Type::asString(g) == Type::Double(1.0).asString());
}
''')
seed("C26-signed", "C26", [("dbus_type.cpp", "    return std::stoul(Type::asString(v));", "    return std::stoi(Type::asString(v));")],
    "An unsigned number above 2147483647", "asUint32 throws", r'''
int main()
{
    EXPECT(Type::asUint32(Type::Uint32(4000000000u)) == 4000000000u);
}
''')
seed("C23-last-out", "C23", [("dbus_introspectable.cpp", "    idx = 0;\n    while (idx < m_OutParams.size()) {", "    while (idx > 0 && idx < m_OutParams.size() && m_InParams.empty()) {")],
    "A method with results", "They are not listed", r'''
int main()
{
    std::string s = Introspectable::Method("M", "s", "u").serialize();
    EXPECT(s.find("direction='out' type='u'") != std::string::npos);
}
''')
seed("C22-nested-dict", "C22", [("dbus_type.cpp", "                if (--number_of_brackets == 0) {\n                    return result;\n                }\n            }\n        }\n        //\n        Log::write(Log::ERROR, \"DBus :: The declaration is invalid due to \"\n                               \"mis-matched braces", "                if (--number_of_brackets == 0 || (i + 1 < declaration.size() && declaration[i + 1] == ')')) {\n                    return result;\n                }\n            }\n        }\n        //\n        Log::write(Log::ERROR, \"DBus :: The declaration is invalid due to \"\n                               \"mis-matched braces")],
    "A dictionary within a struct within a dictionary", "Its type is cut off", r'''
int main()
{
    EXPECT(Type::extractSignature("a{s(ua{sv})}u", 0) == "a{s(ua{sv})}");
}
''')
seed("C11-flags", "C11", [("dbus_message.cpp", "    m_Header.serial = Type::asUint32(header[5]);", "    m_Header.serial = Type::asUint32(header[5]) & 0x7fffffff;")],
    "A message whose serial has its highest bit set", "Its serial is another, and so is that of the reply", r'''
int main()
{
    MessageProtocol p;
    uint32_t got = 0;
    p.setMethodCallHandler([&](const Message::MethodCall& m) { got = m.getSerial(); });
    feed(p, callTo("/a", "b.c", "S", 0x80000001u).wire());
    EXPECT(got == 0x80000001u);
}
''')
seed("C09-body", "C09", [("dbus_messageprotocol.cpp", "    m_headerValid = false;\n    m_headerSize = 0;\n    m_bodySize = 0;\n}", "    m_headerSize = 0;\n    m_bodySize = 0;\n}")],
    "A message whose header cannot be read, behind one that could", "It is dispatched with whatever was read", r'''
int main()
{
    MessageProtocol p;
    int n = 0;
    p.setSignalHandler([&](const Message::Signal&) { ++n; });
    feed(p, signalOf("/a", "b.c", "S").wire());
    std::string s = signalOf("/a", "b.c", "S").wire();
    for (size_t i = s.size() - 1; i > 16; --i)
        if (s[i] == 's') { s[i] = '!'; break; }
    feed(p, s);
    feed(p, signalOf("/a", "b.c", "S").wire());
    EXPECT(n == 2);
}
''')
