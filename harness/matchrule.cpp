// C15, C16: match rules
#include "dbus_matchrule.h"
#include "msg.h"
#include <stdexcept>
using namespace ref;

enum { K_TYPE, K_SENDER, K_INTERFACE, K_MEMBER, K_PATH, K_NAMESPACE, K_DESTINATION, K_COUNT };
static const char* const keys[] = { "type", "sender", "interface", "member", "path", "path_namespace", "destination" };
static const int fieldOf[] = { 0, SENDER, INTERFACE, MEMBER, PATH, PATH, DESTINATION };

struct Cond {
    int key;
    std::string value;
};
static std::string ruleText(const std::vector<Cond>& c)
{
    std::string r;
    for (size_t i = 0; i < c.size(); ++i)
        r += std::string(i ? "," : "") + keys[c[i].key] + "='" + c[i].value + "'";
    return r;
}
static std::string value(size_t n, const char* name)
{
    std::string s = symxString(n, name);
    for (char c : s)
        ASSUME(c != '\'');
    return s;
}
// what the library makes of the rule for the signal
static bool matches(const std::string& rule, const Msg& m, int* invoked = nullptr)
{
    int calls = 0, seen = 0;
    bool r = false;
    DBus::MatchRule mr(rule, [&](const DBus::Message::Signal& s) {
        ++calls;
        CHECK(s.getSerial() == m.serial, "the handler gets the signal");
    });
    DBus::MessageProtocol p;
    p.setSignalHandler([&](const DBus::Message::Signal& s) {
        ++seen;
        r = mr.isMatched(s);
        CHECK(mr.isMatched(s) == r, "matching twice gives the same answer");
        CHECK(calls == 0, "matching does not run the handler");
        mr.invoke(s);
    });
    std::string w = m.wire();
    DBus::OctetBuffer b((uint8_t*)&w[0], w.size());
    p.onReceiveData(b);
    CHECK(seen == 1 && calls == 1, "the signal was seen, and the handler ran");
    return r;
}
static bool below(const std::string& ns, const std::string& path)
{
    if (ns == "/")
        return path[0] == '/';
    if (path.size() == ns.size())
        return same(path, ns);
    return path.size() > ns.size() && same(path.substr(0, ns.size()), ns) && path[ns.size()] == '/';
}
static bool wanted(const std::vector<Cond>& cs, const Msg& m)
{
    bool all = true;
    for (const Cond& c : cs) {
        bool ok;
        if (c.key == K_TYPE)
            ok = c.value.size() == 6 && same(c.value, "signal");
        else if (c.key == K_NAMESPACE)
            ok = below(c.value, m.text(PATH));
        else
            ok = same(c.value, m.text(fieldOf[c.key]));
        all = all && ok;
    }
    return all;
}
static Msg signalWith(const std::string& path)
{
    Msg m;
    m.kind = SIGNAL;
    m.serial = 5;
    m.field(PATH, path);
    return m;
}
// one condition of every kind; its value and the signal's field of every length
extern "C" void one_condition()
{
    Cond c;
    c.key = (int)symx_choice(K_COUNT, "key");
    if (c.key == K_NAMESPACE)
        symx_end();
    size_t most = symx_param("maxlen", 4);
    size_t n = 1 + symx_choice(most, "value length");
    if (c.key == K_TYPE)
        n = 4 + symx_choice(5, "type length");
    c.value = value(n, "value");
    size_t f = symx_choice(most + 2, "field length");
    std::string text = f > most ? "" : symxString(f, "field");
    Msg m = signalWith(c.key == K_PATH ? text : "/p");
    if (c.key != K_PATH && c.key != K_TYPE && f <= most)
        m.field(fieldOf[c.key], text);
    // the other fields carry the value as well: they must not be looked at
    for (int k : { SENDER, INTERFACE, MEMBER, DESTINATION })
        if (c.key == K_TYPE || k != fieldOf[c.key])
            m.field(k, c.value);
    bool got = matches(ruleText({ c }), m);
    CHECK(got == wanted({ c }, m), "a rule matches exactly when its condition holds");
    observeV("matched", (int)got);
    symx_reach(got ? "match" : "no match");
}
extern "C" void path_namespace()
{
    Cond c;
    c.key = K_NAMESPACE;
    size_t n = symx_choice(symx_param("maxlen", 4), "namespace length");
    c.value = "/" + value(n, "namespace");
    if (n)
        ASSUME(c.value[n] != '/');
    size_t k = symx_choice(symx_param("maxlen", 4) + 3, "path length");
    Msg m = signalWith("/" + symxString(k, "path"));
    bool got = matches(ruleText({ c }), m);
    CHECK(got == wanted({ c }, m), "a namespace holds the path itself and everything below it");
    observeV("matched", (int)got);
    symx_reach(got ? "match" : "no match");
}
// every set of conditions, in several orders
extern "C" void conditions()
{
    size_t set = symx_choice((size_t)1 << K_COUNT, "conditions");
    if ((set >> K_PATH & 1) && (set >> K_NAMESPACE & 1))
        symx_end();
    size_t rotate = symx_choice(symx_param("orders", 3), "order"), len = symx_param("len", 1);
    std::vector<Cond> cs;
    for (size_t i = 0; i < K_COUNT; ++i) {
        int k = (int)((rotate & 1 ? K_COUNT - 1 - i : i) + rotate * 2) % K_COUNT;
        if (!(set >> k & 1))
            continue;
        std::string v = value(k == K_TYPE ? 6 : len, "value");
        cs.push_back({ k, k == K_PATH || k == K_NAMESPACE ? "/" + v : v });
        if (k == K_NAMESPACE)
            ASSUME(cs.back().value[len] != '/');
    }
    Msg m = signalWith("/" + symxString(len, "path"));
    m.big = symx_choice(2, "order of bytes");
    for (int k : { SENDER, INTERFACE, MEMBER, DESTINATION })
        m.field(k, symxString(len, "field"));
    int extra = (int)symx_choice(3, "other key");
    std::string rule = ruleText(cs);
    if (extra == 1)
        rule += std::string(cs.empty() ? "" : ",") + "eavesdrop='true'";
    if (extra == 2)
        rule = std::string("eavesdrop='false'") + (cs.empty() ? "" : ",") + rule;
    bool got = matches(rule, m);
    CHECK(got == wanted(cs, m), "a rule matches exactly when all its conditions hold");
    observeV("matched", (int)got);
    symx_reach(got ? "match" : "no match");
}

// ---------------------------------------------------------------- C16
// 1: the rule can be used; 0: rejected with a standard exception
static int construct(const std::string& rule)
{
    try {
        DBus::MatchRule mr(rule, [](const DBus::Message::Signal&) {});
        DBus::MessageProtocol p;
        p.setSignalHandler([&](const DBus::Message::Signal& s) { observeV("matched", (int)mr.isMatched(s)); });
        Msg m = signalWith("/p");
        m.field(INTERFACE, "i");
        m.field(MEMBER, "m");
        std::string w = m.wire();
        DBus::OctetBuffer b((uint8_t*)&w[0], w.size());
        p.onReceiveData(b);
        return 1;
    } catch (const std::exception&) {
        return 0;
    }
}
// a rule without quotes has a condition without a value
static bool lacks(const std::string& s)
{
    for (size_t i = 0; i <= s.size();) {
        size_t e = i;
        while (e < s.size() && s[e] != ',')
            ++e;
        if (e > i) {
            size_t q = i;
            while (q < e && s[q] != '=')
                ++q;
            if (q + 1 >= e)
                return true;
        }
        i = e + 1;
    }
    return false;
}
static bool special(const std::string& s)
{
    bool r = false;
    for (char c : s)
        r = r || c == '\'' || c == '\\';
    return r;
}
static bool unterminated(const std::string& s)
{
    bool q = false, b = false;
    for (char c : s) {
        q = q != (c == '\'');
        b = b || c == '\\';
    }
    return q && !b;
}
extern "C" void rule_arbitrary()
{
    size_t n = symx_choice(symx_param("maxlen", 6) + 1, "length");
    std::string s = symxString(n, "rule");
    int ok = construct(s);
    if (unterminated(s))
        CHECK(!ok, "a quote that does not end is rejected");
    if (!special(s) && lacks(s))
        CHECK(!ok, "a condition without a value is rejected");
    symx_reach(ok ? "accepted" : "rejected");
}
// every known key followed by arbitrary bytes, behind or in front of a good condition
extern "C" void rule_damaged()
{
    int k = (int)symx_choice(K_COUNT, "key");
    int place = (int)symx_choice(3, "place");
    size_t n = symx_choice(symx_param("maxlen", 4) + 1, "length");
    std::string tail = symxString(n, "tail");
    std::string s = keys[k] + tail;
    bool must = (!special(tail) && lacks(s)) || unterminated(s);
    if (place == 1)
        s = "type='signal'," + s;
    if (place == 2)
        s += ",member='m'";
    int ok = construct(s);
    if (must)
        CHECK(!ok, "a condition without a value, or a quote that does not end, is rejected");
    symx_reach(ok ? "accepted" : "rejected");
}
extern "C" void rule_both_paths()
{
    Cond a { K_PATH, "/" + value(symx_choice(3, "length"), "path") };
    Cond b { K_NAMESPACE, "/" + value(symx_choice(3, "length"), "namespace") };
    std::vector<Cond> cs;
    bool swap = symx_choice(2, "order");
    cs.push_back(swap ? b : a);
    size_t others = symx_choice(8, "others");
    if (others & 1)
        cs.push_back({ K_MEMBER, value(1, "member") });
    cs.push_back(swap ? a : b);
    if (others & 2)
        cs.push_back({ K_SENDER, value(1, "sender") });
    if (others & 4)
        cs.insert(cs.begin(), Cond { K_TYPE, "signal" });
    CHECK(!construct(ruleText(cs)), "path and path namespace together are rejected");
    symx_reach("done");
}
