// C21: bus addresses
#include "dbus_platform.h"
#include "symx.h"
#include <cstdlib>

static const char P[] = "unix:path=", A[] = "unix:abstract=";
static std::string bus(bool system, const char* a) { return system ? DBus::Platform::getSystemBus(a) : DBus::Platform::getSessionBus(a); }
static std::string text(size_t n, const char* name, bool commas)
{
    std::string s = symxString(n, name);
    for (char c : s)
        ASSUME(c != 0 && (commas || c != ','));
    return s;
}
// an address of a known kind, with and without parameters behind it
extern "C" void known_addresses()
{
    bool system = symx_choice(2, "bus"), abstract = symx_choice(2, "abstract");
    size_t n = symx_choice(symx_param("maxlen", 6) + 1, "length");
    std::string name = text(n, "name", false), a = std::string(abstract ? A : P) + name;
    static const char* const params[] = { "", ",guid=", ",runtime=yes,guid=", ",x=", ",guid=1,guid=2,y=" };
    size_t k = symx_choice(sizeof params / sizeof *params, "parameters");
    a += params[k];
    if (k) {
        size_t m = symx_choice(4, "parameter length");
        a += text(m, "parameter", true);
    }
    std::string want = abstract ? std::string(1, '\0') + name : name;
    std::string got = bus(system, a.c_str());
    CHECK(same(got, want), "the socket that the address names");
    observe("socket", got);
    symx_reach("done");
}
// names that look like addresses or parameters
extern "C" void odd_names()
{
    bool system = symx_choice(2, "bus"), abstract = symx_choice(2, "abstract");
    static const char* const names[] = { "guid=", "/tmp/guid=1", "unix:path=/x", "unix:abstract=/x", ";", "=", "/a;unix:path=/b", "/%2c" };
    std::string name = names[symx_choice(sizeof names / sizeof *names, "name")];
    std::string a = (abstract ? A : P) + name;
    if (symx_choice(2, "guid"))
        a += ",guid=0";
    CHECK(same(bus(system, a.c_str()), abstract ? std::string(1, '\0') + name : name), "the socket that the address names");
    symx_reach("done");
}
// any other text is the name itself
extern "C" void other_text()
{
    bool system = symx_choice(2, "bus");
    size_t n = symx_choice(symx_param("maxlen", 6) + 1, "length");
    std::string a;
    switch (symx_choice(7, "kind")) {
    case 0:
        a = text(n, "text", true);
        ASSUME(!same(a.substr(0, 10), P) && !same(a.substr(0, 14), A));
        break;
    case 1:
        a = "/unix:path=" + text(n, "text", true);
        break;
    case 2:
        a = "unix:pat" + text(n, "text", true);
        ASSUME(!(n >= 2 && same(a.substr(0, 10), P)));
        break;
    case 3:
        a = "unix:abstract" + text(n, "text", true);
        ASSUME(!(n >= 1 && a[13] == '='));
        break;
    case 4:
        a = "tcp:host=" + text(n, "text", true) + ",guid=1";
        break;
    case 5:
        a = "Unix:path=" + text(n, "text", true);
        break;
    default:
        a = " unix:abstract=" + text(n, "text", true);
    }
    std::string got = bus(system, a.c_str());
    CHECK(same(got, a), "any other text is used unchanged");
    observe("socket", got);
    symx_reach("done");
}
extern "C" void defaults()
{
    CHECK(DBus::Platform::getSystemBus(nullptr) == "/var/run/dbus/system_bus_socket", "default of the system bus");
    CHECK(DBus::Platform::getSessionBus(nullptr) == "", "default of the session bus");
    // the addresses of the environment
    const char* vars[] = { "DBUS_SYSTEM_BUS_ADDRESS", "DBUS_SESSION_BUS_ADDRESS" };
    for (const char* v : vars)
        unsetenv(v);
    CHECK(DBus::Platform::getSystemBus() == "/var/run/dbus/system_bus_socket", "system bus without an environment");
    CHECK(DBus::Platform::getSessionBus() == "", "session bus without an environment");
    size_t n = symx_choice(symx_param("maxlen", 6) + 1, "length");
    std::string a = text(n, "system", false), b = text(n, "session", false);
    setenv(vars[0], (P + a + ",guid=1").c_str(), 1);
    setenv(vars[1], (A + b + ",guid=1").c_str(), 1);
    CHECK(same(DBus::Platform::getSystemBus(), a), "system bus of the environment");
    CHECK(same(DBus::Platform::getSessionBus(), std::string(1, '\0') + b), "session bus of the environment");
    symx_reach("done");
}
