// Independent reading of the D-Bus specification: signatures, alignment, encoding. The oracle of the harnesses.
#pragma once
#include "dbus_messageistream.h"
#include "dbus_messageostream.h"
#include "dbus_type.h"
#include "dbus_type_array.h"
#include "dbus_type_boolean.h"
#include "dbus_type_byte.h"
#include "dbus_type_dictentry.h"
#include "dbus_type_double.h"
#include "dbus_type_int16.h"
#include "dbus_type_int32.h"
#include "dbus_type_int64.h"
#include "dbus_type_objectpath.h"
#include "dbus_type_signature.h"
#include "dbus_type_string.h"
#include "dbus_type_struct.h"
#include "dbus_type_uint16.h"
#include "dbus_type_uint32.h"
#include "dbus_type_uint64.h"
#include "dbus_type_variant.h"
#include "symx.h"
#include <string>
#include <vector>

namespace ref {
static const char BASICS[] = "ybnqiuxtdsog"; // 'h' has no implementation

inline size_t alignOf(char t)
{
    switch (t) {
    case 'n': case 'q': return 2;
    case 'b': case 'i': case 'u': case 's': case 'o': case 'a': case 'h': return 4;
    case 'x': case 't': case 'd': case '(': case '{': return 8;
    default: return 1; // y g v
    }
}
inline size_t fixedSize(char t)
{
    switch (t) {
    case 'y': return 1;
    case 'n': case 'q': return 2;
    case 'b': case 'i': case 'u': return 4;
    case 'x': case 't': case 'd': return 8;
    default: return 0;
    }
}
inline bool isStr(char t) { return t == 's' || t == 'o'; }

struct Val {
    std::string sig; // complete type; for a variant "v" and one kid
    std::vector<Val> kids;
    uint64_t num = 0;
    std::string str;
    char t() const { return sig[0]; }
};

inline void padTo(std::string& o, size_t a)
{
    while (o.size() & (a - 1))
        o.push_back('\0');
}
inline void putInt(std::string& o, uint64_t v, int n, bool big)
{
    for (int i = 0; i < n; ++i)
        o.push_back((char)(v >> 8 * (big ? n - 1 - i : i)));
}
inline void patchInt(std::string& o, size_t at, uint64_t v, int n, bool big)
{
    for (int i = 0; i < n; ++i)
        o[at + i] = (char)(v >> 8 * (big ? n - 1 - i : i));
}
inline void putSig(std::string& o, const std::string& s)
{
    o.push_back((char)s.size());
    o += s;
    o.push_back('\0');
}
inline void enc(std::string& o, const Val& v, bool big)
{
    char t = v.t();
    padTo(o, alignOf(t));
    if (fixedSize(t)) {
        putInt(o, v.num, fixedSize(t), big);
        return;
    }
    switch (t) {
    case 's':
    case 'o':
        putInt(o, v.str.size(), 4, big);
        o += v.str;
        o.push_back('\0');
        break;
    case 'g':
        putSig(o, v.str);
        break;
    case 'v':
        putSig(o, v.kids[0].sig);
        enc(o, v.kids[0], big);
        break;
    case 'a': {
        size_t at = o.size();
        putInt(o, 0, 4, big);
        padTo(o, alignOf(v.sig[1]));
        size_t start = o.size();
        for (const Val& k : v.kids)
            enc(o, k, big);
        patchInt(o, at, o.size() - start, 4, big);
        break;
    }
    default: // ( {
        for (const Val& k : v.kids)
            enc(o, k, big);
    }
}

// length of the single complete type starting at i, 0 if there is none; dict entries only where `inArray`
inline size_t typeLen(const std::string& s, size_t i, bool inArray = false)
{
    if (i >= s.size())
        return 0;
    char c = s[i];
    if (c == 'a') {
        size_t n = typeLen(s, i + 1, true);
        return n ? n + 1 : 0;
    }
    if (c == '(' || (c == '{' && inArray)) {
        size_t j = i + 1, fields = 0;
        char close = c == '(' ? ')' : '}';
        while (j < s.size() && s[j] != close) {
            size_t n = typeLen(s, j);
            if (!n)
                return 0;
            if (c == '{' && fields == 0 && !(n == 1 && s[j] != 'v'))
                return 0;
            j += n;
            ++fields;
        }
        if (j >= s.size() || !fields || (c == '{' && fields != 2))
            return 0;
        return j + 1 - i;
    }
    for (const char* p = "ybnqiuxtdsogvh"; *p; ++p)
        if (*p == c)
            return 1;
    return 0;
}

// ---------------------------------------------------------------- generators (choices are explored exhaustively)
struct Gen {
    int maxArr = 2, maxStr = 2, maxFields = 2, varDepth = 1;
    const char* leaves = BASICS; // basic types at the leaves
    const char* inner = "yqus"; // basic types below the first level
    bool arrInArr = true; // arrays directly inside arrays, structs
    bool apiVariant = false; // variants hold only s o u g
    bool boolAny = false;
    int spine = (int)symx_param("spine", 0); // instead: one container at each of so many levels
};
// a complete type with containers nested at most `depth` deep
// Types that are nested deeper, but contain one container at each level only
inline std::string spineSig(const Gen& g, int depth, bool noArray = false)
{
    if (depth == 0)
        return "t";
    size_t c = symx_choice(noArray ? 4 : g.arrInArr ? 7 : 6, "level");
    switch (c) {
    case 0: return "(" + spineSig(g, depth - 1, !g.arrInArr) + ")";
    case 1: return "(y" + spineSig(g, depth - 1, !g.arrInArr) + ")";
    case 2: return "(" + spineSig(g, depth - 1, !g.arrInArr) + "y)";
    case 3: return "(" + spineSig(g, depth - 1, !g.arrInArr) + "(y))";
    case 4: return "a{y" + spineSig(g, depth - 1) + "}";
    case 6: return "(a{yt}" + spineSig(g, depth - 1) + ")";
    default: return "a" + spineSig(g, depth - 1, !g.arrInArr);
    }
}
inline std::string genSig(const Gen& g, int depth, bool top = true, bool inArray = false, bool noArray = false)
{
    if (g.spine && top && depth > 0)
        return spineSig(g, g.spine, noArray);
    const char* leaves = top ? g.leaves : g.inner;
    size_t nb = 0;
    while (leaves[nb])
        ++nb;
    size_t c = symx_choice(nb + 1 + (depth > 0 ? 2 + (inArray ? 1 : 0) : 0), "type");
    if (c < nb)
        return std::string(1, leaves[c]);
    c -= nb;
    if (c == 0)
        return "v";
    if (c == 1) {
        if (noArray)
            symx_end();
        return "a" + genSig(g, depth - 1, top, true, !g.arrInArr);
    }
    if (c == 2) {
        size_t n = 1 + symx_choice(g.maxFields, "fields");
        std::string s = "(";
        for (size_t i = 0; i < n; ++i)
            s += genSig(g, depth - 1, top && i == 0, false, !g.arrInArr);
        return s + ")";
    }
    size_t nk = 0;
    while (g.inner[nk])
        ++nk;
    std::string key(1, g.inner[symx_choice(nk, "key")]);
    return "{" + key + genSig(g, depth - 1, false, false, false) + "}";
}
inline Val gen(const Gen& g, const std::string& sig, int varDepth)
{
    Val v;
    v.sig = sig;
    char t = sig[0];
    if (fixedSize(t)) {
        v.num = 0;
        symx_bytes(&v.num, fixedSize(t), "num");
        if (t == 'b' && !g.boolAny)
            v.num &= 1;
    } else if (isStr(t) || t == 'g') {
        size_t n = symx_choice(g.maxStr + 1, "strlen");
        v.str = symxString(n, "str");
    } else if (t == 'v') {
        std::string inner;
        if (varDepth <= 0)
            inner = "y";
        else if (g.apiVariant)
            inner = std::string(1, "soug"[symx_choice(4, "vtype")]);
        else {
            static const char* const kinds[] = { "y", "q", "u", "t", "d", "s", "g", "o", "v", "ay", "at", "as", "(yu)", "a{sv}", "a(ys)" };
            inner = kinds[symx_choice(sizeof kinds / sizeof *kinds, "vtype")];
        }
        v.kids.push_back(gen(g, inner, varDepth - 1));
    } else if (t == 'a') {
        size_t n = symx_choice(g.maxArr + 1, "count");
        for (size_t i = 0; i < n; ++i)
            v.kids.push_back(gen(g, sig.substr(1), varDepth));
    } else {
        size_t i = 1;
        while (i < sig.size() - 1) {
            size_t n = typeLen(sig, i);
            v.kids.push_back(gen(g, sig.substr(i, n), varDepth));
            i += n;
        }
    }
    return v;
}

// ---------------------------------------------------------------- values of the implementation
using DBus::Type::Generic;
namespace T = DBus::Type;
Generic build(const Val& v);

template <typename C>
inline void addTo(C& c, const Val& k)
{
    Generic g = build(k);
    switch (k.t()) {
    case 'y': c.add(boost::any_cast<const T::Byte&>(g)); break;
    case 'b': c.add(boost::any_cast<const T::Boolean&>(g)); break;
    case 'n': c.add(boost::any_cast<const T::Int16&>(g)); break;
    case 'q': c.add(boost::any_cast<const T::Uint16&>(g)); break;
    case 'i': c.add(boost::any_cast<const T::Int32&>(g)); break;
    case 'u': c.add(boost::any_cast<const T::Uint32&>(g)); break;
    case 'x': c.add(boost::any_cast<const T::Int64&>(g)); break;
    case 't': c.add(boost::any_cast<const T::Uint64&>(g)); break;
    case 'd': c.add(boost::any_cast<const T::Double&>(g)); break;
    case 's': c.add(boost::any_cast<const T::String&>(g)); break;
    case 'o': c.add(boost::any_cast<const T::ObjectPath&>(g)); break;
    case 'g': c.add(boost::any_cast<const T::Signature&>(g)); break;
    case 'v': c.add(boost::any_cast<const T::Variant&>(g)); break;
    case '(': c.add(boost::any_cast<const T::Struct&>(g)); break;
    case '{': c.add(boost::any_cast<const T::DictEntry&>(g)); break;
    default: symx_cut("not addable");
    }
}
inline double asDouble(uint64_t bits)
{
    double d;
    memcpy(&d, &bits, 8);
    return d;
}
inline Generic build(const Val& v)
{
    switch (v.t()) {
    case 'y': return T::Byte((uint8_t)v.num);
    case 'b': return T::Boolean((uint32_t)v.num);
    case 'n': return T::Int16((int16_t)v.num);
    case 'q': return T::Uint16((uint16_t)v.num);
    case 'i': return T::Int32((int32_t)v.num);
    case 'u': return T::Uint32((uint32_t)v.num);
    case 'x': return T::Int64((int64_t)v.num);
    case 't': return T::Uint64(v.num);
    case 'd': return T::Double(asDouble(v.num));
    case 's': return T::String(v.str);
    case 'o': return T::ObjectPath(v.str);
    case 'g': return T::Signature(v.str);
    case 'v': {
        const Val& k = v.kids[0];
        switch (k.t()) {
        case 's': return T::Variant(T::String(k.str));
        case 'o': return T::Variant(T::ObjectPath(k.str));
        case 'g': return T::Variant(T::Signature(k.str));
        case 'u': return T::Variant(T::Uint32((uint32_t)k.num));
        }
        symx_cut("variant content without constructor");
    }
    case 'a': {
        T::Array a;
        a.setSignature(v.sig);
        for (const Val& k : v.kids)
            addTo(a, k);
        return a;
    }
    case '(': {
        T::Struct s;
        for (const Val& k : v.kids)
            addTo(s, k);
        return s;
    }
    default:
        return T::DictEntry(build(v.kids[0]), build(v.kids[1]));
    }
}

// the decoded value `g` is `v`: same type, element count and content, recursively
inline void expectValue(const Generic& g, const Val& v)
{
    CHECK(T::getMarshallingSignature(g) == v.sig, "signature of the decoded value");
    DBus::MessageOStream os;
    T::marshallData(g, os);
    std::string want;
    enc(want, v, false);
    CHECK(same(os.data, want), "content of the decoded value");
    switch (v.t()) {
    case 's':
    case 'o':
    case 'g':
        CHECK(same(T::asString(g), v.str), "text of the decoded value");
        break;
    case 'a': {
        const std::vector<Generic>& c = T::refArray(g).getContents();
        CHECK(c.size() == v.kids.size() && T::refArray(g).size() == v.kids.size(), "array element count");
        for (size_t i = 0; i < v.kids.size(); ++i)
            expectValue(c[i], v.kids[i]);
        break;
    }
    case '(': {
        const T::Struct& s = T::refStruct(g);
        CHECK(s.getEntries() == v.kids.size(), "struct field count");
        for (size_t i = 0; i < v.kids.size(); ++i)
            expectValue(s[i], v.kids[i]);
        break;
    }
    case 'v':
        expectValue(T::refVariant(g).getValue(), v.kids[0]);
        break;
    }
}
} // namespace ref
