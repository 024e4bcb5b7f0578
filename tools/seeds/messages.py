# Messages and the stream they arrive in
RUN = r'''
static std::vector<std::string> got;
static void listen(MessageProtocol& p)
{
    p.setMethodCallHandler([](const Message::MethodCall& m) { got.push_back("call " + m.getFullName()); });
    p.setMethodReturnHandler([](const Message::MethodReturn& m) { got.push_back("return " + std::to_string(m.getReplySerial())); });
    p.setErrorHandler([](const Message::Error& m) { got.push_back("error " + m.getMessage()); });
    p.setSignalHandler([](const Message::Signal& m) { got.push_back("signal " + m.getHeaderMember()); });
}
'''
seed("C07-header-limit", "C07", [("dbus_messageprotocol.cpp", "        if (m_headerSize > MAX_ARRAY_SIZE) {\n            throw std::out_of_range(\"DBus message error: Maximum size exceeded\");\n        }\n\n        // Add the 16 bytes of the header\n        m_headerSize += 16;\n",
    "\n        // Add the 16 bytes of the header\n        m_headerSize += 16;\n        if (m_headerSize > MAX_ARRAY_SIZE) {\n            throw std::out_of_range(\"DBus message error: Maximum size exceeded\");\n        }\n")],
    "Header fields of 64 MiB, or up to 15 bytes less", "Messages of a legal size are refused", r'''
static bool refused(uint32_t fields)
{
    MessageProtocol p;
    std::string w("l\4\0\1", 4);
    Msg::u32(w, 0);
    Msg::u32(w, 1);
    Msg::u32(w, fields);
    try {
        feed(p, w);
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
int main()
{
    EXPECT(!refused(67108864));
    EXPECT(!refused(67108860));
    EXPECT(refused(67108865));
}
''')
seed("C07-total-wraps", "C07", [("dbus_messageprotocol.cpp", "        if ((m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {", "        if (uint32_t(m_headerSize + m_bodySize) > MAX_MESSAGE_SIZE) {")],
    "A body that announces nearly 4 GiB", "The sum of the sizes wraps around and the message is accepted", r'''
int main()
{
    MessageProtocol p;
    std::string w("l\4\0\1", 4);
    Msg::u32(w, 0xfffffff8);
    Msg::u32(w, 1);
    Msg::u32(w, 0);
    bool thrown = false;
    try {
        feed(p, w);
    } catch (const std::exception&) {
        thrown = true;
    }
    EXPECT(thrown);
}
''')
seed("C10-empty-error", "C10", [("dbus_message_error.cpp", "    if (m_Parameters.getParameterCount()) {", "    if (m_Message.size()) {")],
    "An error with an empty text", "Its body is not announced by a signature", r'''
int main()
{
    std::string a = Message::Error(3, "a.b", "text").marshall(":1.1");
    EXPECT(a.find(std::string("\x08\1g\0\1s\0", 7)) != std::string::npos);
    std::string b = Message::Error(3, "a.b", "").marshall(":1.1");
    EXPECT(b.find(std::string("\x08\1g\0\1s\0", 7)) != std::string::npos);
}
''')
seed("C10-interactive", "C10", [("dbus_message_methodcall.cpp", "        flags &= ~Message::Header::FLAGS_ALLOW_INTERACTIVE_AUTHORIZATION;", "        flags ^= Message::Header::FLAGS_NO_REPLY_EXPECTED;")],
    "A method call with the flag for interactive authorisation", "Another flag is changed in its place", r'''
int main()
{
    Message::MethodCallIdentifier id("/a", "b.c", "D");
    Message::MethodCall m(id, Message::MethodCallParametersIn(), 4);
    EXPECT(m.marshall("x")[2] == 0);
    EXPECT(m.isReplyExpected());
    Message::MethodCall n(id, Message::MethodCallParametersIn(), 7);
    EXPECT(n.marshall("x")[2] == 3);
}
''')
seed("C10-no-body", "C10", [("dbus_message.cpp", "    packet.pad8();\n    packet.write(body);", "    if (body.size()) {\n        packet.pad8();\n        packet.write(body);\n    }")],
    "A message without parameters whose header does not end on an 8-byte boundary", "The header is not padded", r'''
int main()
{
    for (int n = 1; n < 20; ++n) {
        Message::MethodCall m(Message::MethodCallIdentifier("/a", "b.c", std::string(n, 'm')));
        EXPECT(m.marshall("x").size() % 8 == 0);
    }
}
''')
seed("C11-signature-last", "C11", [("dbus_message.cpp", "    for (auto it : fields.getContents()) {\n        const DBus::Type::Struct& headerField",
    "    for (const auto& it : fields.getContents()) {\n        if (signature.size()) {\n            break; // that was the last field\n        }\n        const DBus::Type::Struct& headerField")],
    "A header whose signature is not its last field, as from message buses that append the sender",
    "The fields behind the signature are lost", r'''
int main()
{
    MessageProtocol p;
    int n = 0;
    p.setSignalHandler([&](const Message::Signal& s) {
        EXPECT(s.getHeaderSender() == ":1.7");
        EXPECT(s.getParameterCount() == 1);
        ++n;
    });
    feed(p, signalOf("/a", "b.c", "S").text("x").field(7, "s", ":1.7").wire());
    EXPECT(n == 1);
}
''')
seed("C11-big-endian", "C11", [("dbus_message.cpp", "bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;", "bool isLittleEndian = Type::asByte(header[0]) == 'l' || Type::asUint32(header[4]) <= 4;")],
    "A big-endian message whose body has at most four bytes", "Its parameters are read in the wrong byte order", r'''
int main()
{
    const unsigned char w[] = { 'B', 4, 0, 1, 0, 0, 0, 4, 0, 0, 0, 1, 0, 0, 0, 0x37,
        1, 1, 'o', 0, 0, 0, 0, 2, '/', 'a', 0, 0, 0, 0, 0, 0,
        2, 1, 's', 0, 0, 0, 0, 3, 'b', '.', 'c', 0, 0, 0, 0, 0,
        3, 1, 's', 0, 0, 0, 0, 1, 'S', 0, 0, 0, 0, 0, 0, 0,
        8, 1, 'g', 0, 1, 'u', 0, 0,
        1, 2, 3, 4 };
    MessageProtocol p;
    int n = 0;
    p.setSignalHandler([&](const Message::Signal& s) {
        EXPECT(Type::asUint32(s.getParameter(0)) == 0x01020304);
        ++n;
    });
    feed(p, std::string((const char*)w, sizeof w));
    EXPECT(n == 1);
}
''')
seed("C12-lock", "C12", [("dbus_message.cpp", "    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);\n    if (serial == 0) {",
    "    if (serial == 0) {")],
    "Messages created by several threads at the same time", "Two of them may get the same serial", r'''
int main()
{
    std::vector<std::vector<uint32_t>> s(4);
    std::vector<std::thread> t;
    for (int i = 0; i < 4; ++i)
        t.emplace_back([&s, i] {
            for (int n = 0; n < 400000; ++n)
                s[i].push_back(Message::MethodReturn(1).getSerial());
        });
    for (auto& x : t)
        x.join();
    std::vector<uint32_t> all;
    for (auto& x : s)
        all.insert(all.end(), x.begin(), x.end());
    std::sort(all.begin(), all.end());
    EXPECT(std::unique(all.begin(), all.end()) == all.end());
}
''')
seed("C30-signal-trace", "C30", [("dbus_message_signal.cpp", "        for (size_t i = 0; i < m_Parameters.getParameterCount(); ++i) {", "        for (size_t i = 0; i <= m_Parameters.getParameterCount(); ++i) {")],
    "A received signal while the log level is TRACE", "A parameter behind the last one is read", r'''
int main()
{
    Log::setLevel(Log::TRACE);
    MessageProtocol p;
    int n = 0;
    p.setSignalHandler([&](const Message::Signal&) { ++n; });
    feed(p, signalOf("/a", "b.c", "S").wire());
    EXPECT(n == 1);
    feed(p, signalOf("/a", "b.c", "S").text("t").wire());
    EXPECT(n == 2);
}
''', asan=True)
