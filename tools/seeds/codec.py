# Encoding, decoding and values
seed("C01-minus-zero", "C01", [("dbus_messageostream.h", "data.append((char*)&value, sizeof(double));",
    "// one representation for zero\n        const double normal = value + 0.0;\n        data.append((char*)&normal, sizeof(double));")],
    "A double that is -0.0", "Negative zero is sent as positive zero", r'''
int main()
{
    MessageOStream a;
    Type::Double(-0.0).marshall(a);
    EXPECT(a.data == std::string("\0\0\0\0\0\0\0\x80", 8));
    MessageOStream b;
    Type::Double(1.5).marshall(b);
    EXPECT(b.data == std::string("\0\0\0\0\0\0\xf8\x3f", 8));
}
''')
seed("C01-boolean", "C01", [("dbus_type_boolean.cpp", "stream.writeBoolean(m_Value ? true : false);", "stream.writeBoolean(m_Value & 1);")],
    "A boolean constructed from an even number other than 0", "True values such as 2 are sent as false", r'''
int main()
{
    MessageOStream a;
    Type::Boolean(2).marshall(a);
    EXPECT(a.data == std::string("\1\0\0\0", 4));
}
''')
seed("C02-swap64", "C02", [("dbus_messageistream.h", "return bswap_64(value);",
    "return (T)(int32_t)bswap_32((uint32_t)((uint64_t)value >> 32)) | ((T)bswap_32((uint32_t)value) << 32);")],
    "A 64-bit integer in the other byte order whose fifth byte's top bit is set",
    "Swapping sign-extends the low half into the high one", r'''
int main()
{
    const uint8_t bytes[] = { 0, 0, 0, 1, 2, 3, 4, 0x85 };
    MessageIStream s(bytes, 8, true);
    uint64_t v = 0;
    s.read(&v);
    EXPECT(v == 0x0000000102030485ull);
    const uint8_t more[] = { 0x01, 0, 0, 1, 0x82, 3, 4, 0x95 };
    MessageIStream t(more, 8, true);
    t.read(&v);
    EXPECT(v == 0x0100000182030495ull);
    const uint8_t low[] = { 0, 0, 0, 2, 0, 0, 0, 0x80 };
    MessageIStream u(low, 8, true);
    u.read(&v);
    EXPECT(v == 0x0000000200000080ull);
    const uint8_t hi[] = { 0x80, 0, 0, 0x81, 0x90, 0, 0, 0xff };
    MessageIStream w(hi, 8, true);
    w.read(&v);
    EXPECT(v == 0x80000081900000ffull);
}
''')
seed("C03-dictentry-reset", "C03", [("dbus_type_dictentry.cpp",
    '    m_Signature = "{" + Type::getMarshallingSignature(m_Value.first) + Type::getMarshallingSignature(m_Value.second) + "}";',
    '    if (m_Signature.empty()) {\n        m_Signature = "{" + Type::getMarshallingSignature(m_Value.first) + Type::getMarshallingSignature(m_Value.second) + "}";\n    }')],
    "set() on a dictionary entry that already held values of other types", "The entry reports the signature of the values it held first", r'''
int main()
{
    Type::DictEntry e(Type::Generic(Type::String("a")), Type::Generic(Type::Uint32(1)));
    EXPECT(e.getSignature() == "{su}");
    e.set(Type::Generic(Type::String("a")), Type::Generic(Type::Byte(1)));
    EXPECT(e.getSignature() == "{sy}");
    Type::Array a;
    a.add(e);
    EXPECT(a.getSignature() == "a{sy}");
}
''')
seed("C04-nested-offset", "C04", [("dbus_messageistream.cpp", "    , m_offset(stream.m_offset)", "    , m_offset(stream.m_offset % sizeof(uint32_t)) // only the alignment matters")],
    "An array of arrays whose elements are aligned to 8, at 4 mod 8", "The elements of the inner arrays are read at the wrong place", r'''
int main()
{
    std::string s;
    Msg::u32(s, 24); // outer array
    Msg::u32(s, 8); // inner array, whose elements follow at once
    s += std::string("\1\2\3\4\5\6\7\1", 8);
    Msg::u32(s, 0);
    s += std::string(8, 0).substr(0, 4);
    std::string body;
    Msg::u32(body, 16); // size of the outer array: the inner size, its padding and one element
    Msg::u32(body, 8);
    body += std::string("\1\2\3\4\5\6\7\1", 8);
    body.replace(0, 4, std::string("\14\0\0\0", 4));
    MessageIStream in((const uint8_t*)body.data(), body.size(), false);
    Type::Array a;
    a.setSignature("aax");
    a.unmarshall(in);
    EXPECT(a.size() == 1);
    const Type::Array& inner = Type::refArray(a.getContents()[0]);
    EXPECT(inner.size() == 1);
    EXPECT(Type::asString(inner.getContents()[0]) == std::to_string(0x0107060504030201ll));
}
''')
seed("C05-string-bound", "C05", [("dbus_messageistream.cpp", "    if (size > m_data.size()) {", "    if (size > m_data.size() + 1) { // with the terminating null")],
    "A string whose length is one more than what is left of the message", "A byte behind the message is read", r'''
int main()
{
    for (int over = 0; over < 3; ++over) {
        std::vector<uint8_t> v = { (uint8_t)(2 + over), 0, 0, 0, 'a', 'b' };
        MessageIStream s(v.data(), v.size(), false);
        Type::String t;
        bool thrown = false;
        try {
            t.unmarshall(s);
        } catch (const std::exception&) {
            thrown = true;
        }
        EXPECT(thrown);
    }
}
''', asan=True)
seed("C22-alignment", "C22", [("dbus_type_uint64.h", "size_t getAlignment() const { return 8; }", "size_t getAlignment() const { return sizeof(m_Signature.size()) / 2; }")],
    "The alignment of 64-bit unsigned integers", "Arrays of them are laid out as if they were aligned to 4", r'''
int main()
{
    EXPECT(Type::getAlignment("t") == 8);
    EXPECT(Type::getAlignment("x") == 8);
}
''')
seed("C24-hex", "C24", [("dbus_utils.cpp", "ss << std::setw(2) << int(uint8_t(input[i]));", "ss << std::setw(2) << int(input[i]);")],
    "A byte of 0x80 or more", "Such a byte becomes eight hexadecimal digits", r'''
int main()
{
    std::string s("x");
    Utils::ConvertBinaryToHexString(s, std::string("\x01\x7f\x80\xff", 4));
    EXPECT(s == "x017f80ff");
}
''')
seed("C24-padding", "C24", [("dbus_utils.cpp", "    size_t required = pad - (size % pad);", "    size_t required = pad - (size & (pad - 1));")],
    "An alignment that is not a power of two", "The padding is not the smallest one", r'''
int main()
{
    for (size_t pad = 1; pad < 17; ++pad)
        for (size_t n = 0; n < 50; ++n) {
            size_t p = Utils::getPadding(pad, n);
            EXPECT(p < pad);
            EXPECT((n + p) % pad == 0);
        }
}
''')
seed("C25-read", "C25", [("dbus_messageistream.cpp", "    uint8_t byte = m_data[0];\n    ++m_offset;\n    m_data.remove_prefix(1);",
    "    ++m_offset;\n    uint8_t byte = m_data[0];\n    m_data.remove_prefix(1);")],
    "Reading a byte at the end of a stream, and aligning behind it", "The position moves although the read failed", r'''
int main()
{
    MessageIStream s((const uint8_t*)"", 0, false);
    bool thrown = false;
    try {
        s.read();
    } catch (const std::exception&) {
        thrown = true;
    }
    EXPECT(thrown);
    s.align(8); // nothing was read, so the stream still is at 0
}
''')
seed("C26-uint64", "C26", [("dbus_type_uint64.cpp", "std::string DBus::Type::Uint64::asString() const\n{\n    std::stringstream ss;\n    ss << m_Value;",
    "std::string DBus::Type::Uint64::asString() const\n{\n    std::stringstream ss;\n    ss << static_cast<int64_t>(m_Value);")],
    "A 64-bit unsigned integer of 2^63 or more", "It is turned into a negative number", r'''
int main()
{
    EXPECT(Type::asString(Type::Uint64(7)) == "7");
    EXPECT(Type::asString(Type::Uint64(0xffffffffffffffffull)) == "18446744073709551615");
}
''')
