// C32, C33: what values tell about themselves: their type, and their printed description
#include "spec.h"
#include <utility>
using namespace ref;
using DBus::MessageIStream;

// ------------------------------------------------------------------------------------------ C32
template <typename C>
static void tells(const C& c, const std::string& sig)
{
    CHECK(c.getSignature() == sig, "the type of a value");
    C copy(c);
    CHECK(copy.getSignature() == sig, "the type of a copied value");
    C assigned;
    assigned = copy;
    CHECK(assigned.getSignature() == sig, "the type of an assigned value");
    Generic g(assigned);
    Generic h(g);
    CHECK(boost::any_cast<const C&>(h).getSignature() == sig, "the type of a value held as any type");
    C moved(std::move(copy));
    CHECK(moved.getSignature() == sig, "the type of a moved value");
    CHECK(c.getAlignment() == alignOf(sig[0]), "the alignment of a value");
    CHECK(T::getMarshallingSignature(h) == sig, "the type code of a value");
}
static void tellsType(const Generic& g, const Val& v)
{
    const std::string& sig = v.sig;
    switch (v.t()) {
    case 'y': tells(boost::any_cast<const T::Byte&>(g), sig); break;
    case 'b': tells(boost::any_cast<const T::Boolean&>(g), sig); break;
    case 'n': tells(boost::any_cast<const T::Int16&>(g), sig); break;
    case 'q': tells(boost::any_cast<const T::Uint16&>(g), sig); break;
    case 'i': tells(boost::any_cast<const T::Int32&>(g), sig); break;
    case 'u': tells(boost::any_cast<const T::Uint32&>(g), sig); break;
    case 'x': tells(boost::any_cast<const T::Int64&>(g), sig); break;
    case 't': tells(boost::any_cast<const T::Uint64&>(g), sig); break;
    case 'd': tells(boost::any_cast<const T::Double&>(g), sig); break;
    case 's': tells(boost::any_cast<const T::String&>(g), sig); break;
    case 'o': tells(boost::any_cast<const T::ObjectPath&>(g), sig); break;
    case 'g': tells(boost::any_cast<const T::Signature&>(g), sig); break;
    case 'v':
        tells(boost::any_cast<const T::Variant&>(g), sig);
        tellsType(T::refVariant(g).getValue(), v.kids[0]);
        break;
    case 'a':
        tells(T::refArray(g), sig);
        for (size_t i = 0; i < v.kids.size(); ++i)
            tellsType(T::refArray(g).getContents()[i], v.kids[i]);
        break;
    case '(':
        tells(T::refStruct(g), sig);
        for (size_t i = 0; i < v.kids.size(); ++i)
            tellsType(T::refStruct(g)[i], v.kids[i]);
        break;
    case '{':
        tells(boost::any_cast<const T::DictEntry&>(g), sig);
        break;
    }
}
// `built`: only what the interface can construct
static Val anyValue(bool built, int depth)
{
    Gen g;
    g.maxArr = symx_param("maxarr", 2);
    g.maxStr = symx_param("maxstr", 1);
    g.maxFields = symx_param("fields", 2);
    g.boolAny = true;
    if (built) {
        g.arrInArr = false;
        g.apiVariant = true;
    }
    std::string sig = genSig(g, depth);
    return gen(g, sig, symx_param("vardepth", 1));
}
static Generic decoded(const Val& v, bool big)
{
    std::string wire;
    enc(wire, v, big);
    MessageIStream s((const uint8_t*)wire.data(), wire.size(), big);
    Generic g = T::create(v.sig);
    T::unmarshallData(g, s);
    return g;
}
extern "C" void own_type()
{
    bool built = symx_choice(2, "built");
    Val v = anyValue(built, symx_param("depth", 1));
    if (built) {
        tellsType(build(v), v);
        symx_reach("built");
    } else {
        bool big = symx_choice(2, "order");
        tellsType(decoded(v, big), v);
        symx_reach("decoded");
    }
}
static Generic made(const Val& v)
{
    switch (symx_choice(3, "made")) {
    case 0: return build(v);
    case 1: return decoded(v, false);
    default: return decoded(v, true);
    }
}
static void expectEncoded(const Generic& g, const Val& v)
{
    DBus::MessageOStream os;
    T::marshallData(g, os);
    std::string want;
    enc(want, v, false);
    CHECK(same(os.data, want), "what the type describes is what is encoded");
}
// values that were built or decoded, and are then changed
extern "C" void changed_type()
{
    Gen g;
    g.maxArr = 1;
    g.maxStr = 0;
    g.apiVariant = true;
    g.arrInArr = false;
    Val v;
    switch (symx_choice(3, "changed")) {
    case 0: { // a struct gets more fields, or others
        v.sig = "(" + genSig(g, 0) + ")";
        v = gen(g, v.sig, 1);
        T::Struct s = T::refStruct(made(v));
        if (symx_choice(2, "clear")) {
            s.clear();
            v.kids.clear();
        }
        size_t more = 1 + symx_choice(symx_param("more", 2), "more");
        for (size_t i = 0; i < more; ++i) {
            g.leaves = i ? "sy" : BASICS;
            Val k = gen(g, i ? genSig(g, 0) : symx_choice(2, "struct") ? std::string("(yu)") : genSig(g, 0), 1);
            v.kids.push_back(k);
            addTo(s, k);
        }
        v.sig = "(";
        for (const Val& k : v.kids)
            v.sig += k.sig;
        v.sig += ")";
        tells(s, v.sig);
        CHECK(s.getEntries() == v.kids.size(), "the number of fields");
        expectEncoded(s, v);
        break;
    }
    case 1: { // an array gets more elements
        std::string e = symx_choice(2, "struct") ? std::string("(su)") : genSig(g, 0);
        v = gen(g, "a" + e, 1);
        // an array that is built empty does not know its type before it has an element
        T::Array a = T::refArray(made(v));
        size_t more = 1 + symx_choice(symx_param("more", 2), "more");
        for (size_t i = 0; i < more; ++i) {
            Val k = gen(g, e, 1);
            v.kids.push_back(k);
            addTo(a, k);
        }
        tells(a, v.sig);
        CHECK(a.size() == v.kids.size(), "the number of elements");
        expectEncoded(a, v);
        break;
    }
    default: { // a dictionary entry is set again, to values of other types
        v.sig = "{su}";
        v = gen(g, v.sig, 1);
        T::DictEntry d = boost::any_cast<const T::DictEntry&>(made(v));
        g.leaves = "yusg";
        Val w;
        w.kids.push_back(gen(g, std::string(1, BASICS[symx_choice(12, "key")]), 0));
        w.kids.push_back(gen(g, genSig(g, 1), 1));
        w.sig = "{" + w.kids[0].sig + w.kids[1].sig + "}";
        d.set(build(w.kids[0]), build(w.kids[1]));
        tells(d, w.sig);
        expectEncoded(d, w);
    }
    }
    symx_reach("changed");
}
// types with long texts
extern "C" void wide_type()
{
    static const size_t widths[] = { 14, 15, 16, 30, 31, 32, 62, 63, 64, 65, 126, 127, 128, 200, 251 };
    size_t n = widths[symx_choice(15, "width")];
    Val s;
    for (size_t i = 0; i < n; ++i) {
        Val k;
        k.sig = std::string(1, "yu"[i & 1]);
        k.num = i & 127;
        s.kids.push_back(k);
        s.sig += k.sig;
    }
    s.sig = "(" + s.sig + ")";
    Val v;
    switch (symx_choice(4, "kind")) {
    case 0: v = s; break;
    case 1:
        v.sig = "a" + s.sig;
        v.kids.push_back(s);
        break;
    case 2:
        v.sig = "(" + s.sig + ")";
        v.kids.push_back(s);
        break;
    default:
        Val k;
        k.sig = "q";
        v.sig = "{q" + s.sig + "}";
        if (v.sig.size() > 255)
            symx_end();
        v.kids.push_back(k);
        v.kids.push_back(s);
    }
    if (v.t() == '{') {
        Val a;
        a.sig = "a" + v.sig;
        if (a.sig.size() > 255)
            symx_end();
        a.kids.push_back(v);
        v = a;
    }
    Generic g = made(v);
    tellsType(g, v);
    expectEncoded(g, v);
    symx_reach("wide");
}
// values that have not been given anything yet, and values set from another of their type
template <typename C>
static void blank(const char* sig)
{
    tells(C(), sig);
    Generic g = T::create(sig);
    tells(boost::any_cast<const C&>(g), sig);
    const DBus::Type::CompositeBlock block = { { C(), g, C() } };
    CHECK(T::getMarshallingSignature(block.m_TypeList) == std::string(sig) + sig + sig, "the type of a row of values");
}
extern "C" void blank_type()
{
    switch (symx_choice(13, "type")) {
    case 0: blank<T::Byte>("y"); break;
    case 1: blank<T::Boolean>("b"); break;
    case 2: blank<T::Int16>("n"); break;
    case 3: blank<T::Uint16>("q"); break;
    case 4: blank<T::Int32>("i"); break;
    case 5: blank<T::Uint32>("u"); break;
    case 6: blank<T::Int64>("x"); break;
    case 7: blank<T::Uint64>("t"); break;
    case 8: blank<T::Double>("d"); break;
    case 9: blank<T::String>("s"); break;
    case 10: blank<T::ObjectPath>("o"); break;
    case 11: blank<T::Signature>("g"); break;
    case 12: blank<T::Variant>("v"); break;
    }
    CHECK(T::getMarshallingSignature(Generic()) == "", "no value has no type");
    CHECK(T::getMarshallingSignature(std::vector<Generic>()) == "", "no values have no type");
    symx_reach("done");
}

// Whatever signature and bytes were decoded: the values tell the signature they were decoded by.
extern "C" void decoded_type()
{
    std::string sig = symxString(symx_choice(symx_param("maxsig", 3), "sigsize") + 1, "sig");
    std::string data = symxString(symx_choice(symx_param("maxdata", 5) + 1, "size"), "data");
    bool swap = symx_choice(2, "swap");
    MessageIStream s((const uint8_t*)data.data(), data.size(), swap);
    T::Struct st;
    st.setSignature("(" + sig + ")");
    try {
        st.unmarshall(s);
    } catch (const std::exception&) {
        symx_reach("refused");
        return;
    }
    CHECK(same(st.getSignature(), "(" + sig + ")"), "the type of a decoded struct");
    CHECK(same(T::getMarshallingSignature(st), "(" + sig + ")"), "the type code of a decoded struct");
    std::string fields;
    for (size_t i = 0; i < st.getEntries(); ++i)
        fields += T::getMarshallingSignature(st[i]);
    CHECK(same(fields, sig), "the types of the fields of a decoded struct");
    symx_reach("decoded");
}

// ------------------------------------------------------------------------------------------ C33
// What is written for a value, by the layout of the tests and the documentation of Type::toString. Numbers: `text` is
// the part of the description from position `at`; the functions return the position behind what they expect.
static bool g_digits = true; // whether the digits of numbers are looked at
static size_t expectText(const std::string& d, size_t at, const std::string& want, const char* what)
{
    CHECK(d.size() >= at + want.size(), what);
    CHECK(same(d.substr(at, want.size()), want), what);
    return at + want.size();
}
static size_t expectDecimal(const std::string& d, size_t at, uint64_t v, bool isSigned, int bytes)
{
    if (!g_digits) {
        while (at < d.size() && d[at] != ' ')
            ++at;
        return at;
    }
    if (isSigned) {
        unsigned shift = 64 - 8 * bytes;
        int64_t s = (int64_t)(v << shift) >> shift;
        if (s < 0) {
            at = expectText(d, at, "-", "the sign of a negative number");
            v = 0 - (uint64_t)s;
        }
    }
    size_t start = at, end = d.find(" (", at);
    CHECK(end != std::string::npos && end > start && end - start <= 20, "the decimal digits of a number");
    uint64_t x = 0;
    int ok = 1;
    for (; at < end; ++at) {
        uint8_t digit = d[at] - '0';
        ok &= digit <= 9;
        x = x * 10 + digit;
    }
    if (end - start > 1)
        ok &= d[start] != '0';
    if (end - start == 20) // below 2 * 10^19, so no wrap around
        ok &= (d[start] == '1') & (v >= 10000000000000000000ul);
    CHECK(ok & (x == v), "the decimal digits of a number");
    return at;
}
static unsigned hexLength(uint64_t v, int bytes)
{
    unsigned n = 1;
    while (n < (unsigned)bytes * 2 && (v >> 4 * n) != 0)
        ++n;
    return n;
}
static size_t expectHex(const std::string& d, size_t at, uint64_t v, int bytes, unsigned minDigits)
{
    if (!g_digits) {
        while (at < d.size() && d[at] != ')')
            ++at;
        return at;
    }
    unsigned n = hexLength(v, bytes);
    if (n < minDigits)
        n = minDigits;
    CHECK(d.size() >= at + n, "the hexadecimal digits of a number");
    int ok = 1;
    for (unsigned i = 0; i < n; ++i) {
        unsigned digit = (v >> 4 * (n - 1 - i)) & 15;
        ok &= d[at + i] == (char)symx_ite(digit < 10, '0' + digit, 'a' + digit - 10);
    }
    CHECK(ok, "the hexadecimal digits of a number");
    return at + n;
}
static size_t expectDescription(const std::string& d, size_t at, const Val& v, const std::string& prefix)
{
    at = expectText(d, at, prefix, "the prefix of a description");
    static const struct {
        char t;
        const char* name;
        bool isSigned;
        unsigned hex;
    } ints[] = { { 'y', "Byte ", false, 2 }, { 'n', "Int16 ", true, 2 }, { 'q', "Uint16 ", false, 2 }, { 'i', "Int32 ", true, 4 },
        { 'u', "Uint32 ", false, 4 }, { 'x', "Int64 ", true, 8 }, { 't', "Uint64 ", false, 8 } };
    for (const auto& k : ints)
        if (k.t == v.t()) {
            at = expectText(d, at, k.name, "the name of the type of a number");
            at = expectDecimal(d, at, v.num, k.isSigned, fixedSize(k.t));
            at = expectText(d, at, " (0x", "the form of a number");
            at = expectHex(d, at, v.num, fixedSize(k.t), k.hex);
            return expectText(d, at, ")\n", "the end of the line of a number");
        }
    switch (v.t()) {
    case 'b':
        return expectText(d, at, v.num ? "Boolean True\n" : "Boolean False\n", "the description of a truth value");
    case 's':
    case 'o':
        at = expectText(d, at, "String (" + std::to_string(v.str.size()) + ") \"", "the length of a text");
        at = expectText(d, at, v.str, "the content of a text");
        return expectText(d, at, "\"\n", "the end of the line of a text");
    case 'g':
        return expectText(d, at, "Signature (" + v.str + ")\n", "the description of a signature");
    case 'v':
        at = expectText(d, at, "Variant (" + v.kids[0].sig + ")\n", "the type of the content of a variant");
        return expectDescription(d, at, v.kids[0], prefix + "   ");
    case 'a':
        at = expectText(d, at, "Array (" + v.sig + ") [\n", "the type of an array");
        for (size_t i = 0; i < v.kids.size(); ++i) {
            at = expectText(d, at, prefix + "   [" + std::to_string(i) + "] =\n", "the index of an element");
            at = expectDescription(d, at, v.kids[i], prefix + "      ");
        }
        return expectText(d, at, prefix + "]\n", "the end of an array");
    case '(':
        at = expectText(d, at, "Struct " + v.sig + " <\n", "the type of a struct");
        for (const Val& k : v.kids)
            at = expectDescription(d, at, k, prefix + "   ");
        return expectText(d, at, prefix + ">\n", "the end of a struct");
    case '{':
        at = expectText(d, at, "DictEntry (" + v.sig + ") : {\n", "the type of a dictionary entry");
        at = expectText(d, at, prefix + "   key:   ", "the key of a dictionary entry");
        at = expectDescription(d, at, v.kids[0], prefix + "   ");
        at = expectText(d, at, prefix + "   value: ", "the value of a dictionary entry");
        at = expectDescription(d, at, v.kids[1], prefix + "   ");
        return expectText(d, at, prefix + "}\n", "the end of a dictionary entry");
    }
    return at;
}
static bool holds(const Val& v, char t)
{
    if (v.sig.find(t) != std::string::npos)
        return true;
    for (const Val& k : v.kids)
        if (holds(k, t))
            return true;
    return false;
}
static void describe(const Generic& g, const Val& v, const std::string& prefix)
{
    if (holds(v, 'd'))
        symx_end(); // the digits of floating point numbers are not decided
    std::string d = T::toString(g, prefix);
    CHECK(expectDescription(d, 0, v, prefix) == d.size(), "nothing more in a description");
    if (prefix.empty())
        CHECK(same(T::toString(g), d), "a description without a prefix");
}
extern "C" void description_basic()
{
    static const char types[] = "ybnqiuxtsog";
    Gen g;
    g.maxStr = symx_param("maxstr", 3);
    g.boolAny = true;
    char t = types[symx_choice(sizeof types - 1, "type")];
    Val v = gen(g, std::string(1, t), 0);
    if (fixedSize(t))
        hexLength(v.num, fixedSize(t)); // the cases are told apart while that is easy: before there are decimal digits
    std::string prefix = symxString(symx_choice(symx_param("maxprefix", 1) + 1, "prefix length"), "prefix");
    describe(build(v), v, prefix);
    symx_reach("done");
}
extern "C" void description_container()
{
    bool built = symx_choice(2, "built");
    Val v = anyValue(built, symx_param("depth", 1));
    if (v.sig.size() == 1 && v.t() != 'v')
        symx_end(); // description_basic
    symx_opaque_numbers(1);
    g_digits = false;
    std::string prefix = symxString(symx_param("prefix", 1), "prefix");
    if (built) {
        describe(build(v), v, prefix);
        symx_reach("built");
    } else {
        describe(decoded(v, false), v, prefix);
        symx_reach("decoded");
    }
}
