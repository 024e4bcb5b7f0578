// C23: introspection data
#include "dbus_introspectable.h"
#include "spec.h"
using namespace ref;
namespace I = DBus::Introspectable;

// ---------------------------------------------------------------- a reader of XML without text content
struct Node {
    std::string name;
    std::vector<std::pair<std::string, std::string>> attrs;
    std::vector<Node> kids;
    std::string attr(const char* n, const char* dflt = "") const
    {
        for (auto& a : attrs)
            if (a.first == n)
                return a.second;
        return dflt;
    }
};
struct Xml {
    const std::string& s;
    size_t p = 0;
    Xml(const std::string& t) : s(t) {}
    bool at(const char* t) const { return s.compare(p, strlen(t), t) == 0; }
    static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
    static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    void skip()
    {
        while (p < s.size() && space(s[p]))
            ++p;
    }
    std::string word()
    {
        size_t b = p;
        while (p < s.size() && letter(s[p]))
            ++p;
        CHECK(p > b, "a name in the XML");
        return s.substr(b, p - b);
    }
    void prolog()
    {
        for (;;) {
            skip();
            if (!at("<!") && !at("<?"))
                return;
            while (p < s.size() && s[p] != '>')
                ++p;
            ++p;
        }
    }
    Node element()
    {
        Node n;
        skip();
        CHECK(p < s.size() && s[p] == '<', "an element in the XML");
        ++p;
        n.name = word();
        for (;;) {
            skip();
            CHECK(p < s.size(), "the end of a tag");
            if (at("/>")) {
                p += 2;
                return n;
            }
            if (s[p] == '>') {
                ++p;
                break;
            }
            std::string a = word();
            skip();
            CHECK(p < s.size() && s[p] == '=', "an attribute value");
            ++p;
            skip();
            CHECK(p < s.size() && (s[p] == '\'' || s[p] == '"'), "a quoted attribute value");
            char q = s[p++];
            size_t b = p;
            while (p < s.size() && s[p] != q)
                ++p;
            CHECK(p < s.size(), "the end of an attribute value");
            for (auto& x : n.attrs)
                CHECK(x.first != a, "each attribute once");
            n.attrs.push_back({ a, s.substr(b, p - b) });
            ++p;
        }
        for (;;) {
            skip();
            if (at("</")) {
                p += 2;
                CHECK(word() == n.name, "matching end tag");
                skip();
                CHECK(p < s.size() && s[p] == '>', "the end of an end tag");
                ++p;
                return n;
            }
            n.kids.push_back(element());
        }
    }
};
static Node document(const std::string& xml)
{
    Xml x(xml);
    x.prolog();
    Node n = x.element();
    x.skip();
    CHECK(x.p == xml.size(), "nothing behind the document");
    return n;
}
static std::string name(const char* what)
{
    std::string s = symxString(1 + symx_choice(symx_param("names", 1), "length"), what);
    for (char c : s)
        ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '.');
    return s;
}
static std::vector<std::string> types(size_t most, int depth)
{
    Gen g;
    g.leaves = "yqus";
    g.inner = symx_param("inner", 1) ? "ys" : "s";
    std::vector<std::string> r;
    size_t n = symx_choice(most + 1, "types");
    for (size_t i = 0; i < n; ++i)
        r.push_back(genSig(g, i ? 0 : depth));
    return r;
}
static std::string join(const std::vector<std::string>& t)
{
    std::string s;
    for (auto& x : t)
        s += x;
    return s;
}
static void expectArgs(const Node& n, const std::vector<std::string>& in, const std::vector<std::string>& out, bool signal)
{
    std::vector<std::string> gi, go;
    for (const Node& k : n.kids) {
        CHECK(k.name == "arg" && k.kids.empty(), "arguments");
        std::string d = k.attr("direction", signal ? "out" : "in");
        CHECK(d == "in" || d == "out", "direction");
        (d == "in" ? gi : go).push_back(k.attr("type"));
    }
    CHECK(gi == in, "one input argument for each complete type, in order");
    CHECK(go == out, "one output argument for each complete type, in order");
}
static Node one(const I::Interface& f)
{
    I::Introspection doc;
    doc.addInterface(f);
    Node d = document(doc.serialize());
    CHECK(d.name == "node" && d.attrs.empty() && d.kids.size() == 1 && d.kids[0].name == "interface", "one interface");
    CHECK(document("<x>" + f.serialize() + "</x>").kids.size() == 1, "an interface by itself");
    return d.kids[0];
}
// the arguments of a method and of a signal
extern "C" void arguments()
{
    bool signal = symx_choice(2, "signal");
    std::vector<std::string> in = signal ? std::vector<std::string>() : types(symx_param("types", 2), (int)symx_param("depth", 1));
    std::vector<std::string> out = types(symx_param("types", 2), (int)symx_param("depth", 1));
    std::string m = name("member"), i = name("interface");
    I::Interface f(i);
    if (signal)
        f.addSignal(I::Signal(m, join(out)));
    else
        f.addMethod(I::Method(m, join(in), join(out)));
    Node n = one(f);
    CHECK(same(n.attr("name"), i), "name of the interface");
    CHECK(n.kids.size() == 1 && n.kids[0].name == (signal ? "signal" : "method"), "one member");
    CHECK(same(n.kids[0].attr("name"), m), "name of the member");
    expectArgs(n.kids[0], in, out, signal);
    symx_reach(signal ? "signal" : "method");
}
// any mixture of members of several interfaces
extern "C" void members()
{
    struct Member {
        int kind;
        std::string name;
        size_t access, types;
    };
    static const char* const kinds[] = { "property", "method", "signal" };
    static const char* const access[] = { "read", "write", "readwrite" };
    I::Introspection doc;
    size_t faces = symx_choice(symx_param("interfaces", 2) + 1, "interfaces");
    std::vector<std::string> names;
    std::vector<std::vector<Member>> all;
    for (size_t i = 0; i < faces; ++i) {
        names.push_back(name("interface"));
        I::Interface f(names[i]);
        std::vector<Member> ms;
        size_t n = symx_choice(symx_param("members", 3) + 1, "members");
        for (size_t k = 0; k < n; ++k) {
            Member m;
            m.kind = (int)symx_choice(3, "kind");
            m.name = name("member");
            m.access = m.kind == 0 ? symx_choice(3, "access") : 0;
            m.types = (i + k) % 3;
            std::string sig = std::string("a{sv}u").substr(0, m.types == 0 ? 0 : m.types == 1 ? 5 : 6);
            if (m.kind == 0) {
                static const size_t acc[] = { I::Property::PROPERTY_READ, I::Property::PROPERTY_WRITE, I::Property::PROPERTY_READWRITE };
                f.addProperty(I::Property(m.name, "(ss)", acc[m.access]));
            } else if (m.kind == 1)
                f.addMethod(I::Method(m.name, sig, "s"));
            else
                f.addSignal(I::Signal(m.name, sig));
            ms.push_back(m);
        }
        doc.addInterface(f);
        all.push_back(ms);
    }
    std::string xml = doc.serialize();
    CHECK(same(xml, doc.serialize()), "serializing twice gives the same");
    Node d = document(xml);
    CHECK(d.name == "node" && d.kids.size() == faces, "every interface");
    for (size_t i = 0; i < faces; ++i) {
        const Node& f = d.kids[i];
        CHECK(f.name == "interface" && same(f.attr("name"), names[i]), "interfaces in order");
        CHECK(f.kids.size() == all[i].size(), "every member");
        for (int kind = 0; kind < 3; ++kind) {
            std::vector<const Node*> got;
            std::vector<const Member*> want;
            for (const Node& n : f.kids)
                if (n.name == kinds[kind])
                    got.push_back(&n);
            for (const Member& m : all[i])
                if (m.kind == kind)
                    want.push_back(&m);
            CHECK(got.size() == want.size(), "every member of a kind");
            for (size_t k = 0; k < got.size(); ++k) {
                CHECK(same(got[k]->attr("name"), want[k]->name), "members in order");
                std::vector<std::string> t;
                if (want[k]->types > 0)
                    t.push_back("a{sv}");
                if (want[k]->types > 1)
                    t.push_back("u");
                if (kind == 0) {
                    CHECK(got[k]->kids.empty() && got[k]->attr("type") == "(ss)" && got[k]->attr("access") == access[want[k]->access], "type and access of a property");
                } else if (kind == 1)
                    expectArgs(*got[k], t, { "s" }, false);
                else
                    expectArgs(*got[k], {}, t, true);
            }
        }
    }
    symx_reach("done");
}
