// Exercises library facilities that the code might use after a change; not part of any check.
#include "symx.h"
#include "spec.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cctype>
#include <cerrno>
#include <charconv>
#include <chrono>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <endian.h>
#include <forward_list>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <string_view>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <boost/algorithm/string.hpp>
#include <boost/any.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/optional.hpp>
#include <boost/thread.hpp>
using namespace ref;

extern "C" void st_text()
{
    std::string a = symxString(3, "a");
    std::string_view v(a);
    CHECK(v.substr(1).size() == 2, "sv");
    auto it = std::find(a.begin(), a.end(), 'x');
    CHECK(it == a.end() || *it == 'x', "find");
    std::string b;
    std::transform(a.begin(), a.end(), std::back_inserter(b), [](unsigned char c) { return std::toupper(c); });
    CHECK(b.size() == 3, "transform");
    std::reverse(b.begin(), b.end());
    CHECK(v.find("yz") == std::string::npos || v.find("yz") < 2, "find sub");
    CHECK(a.find_first_of(".:") == std::string::npos || a.find_first_of(".:") < 3, "find_first_of");
    CHECK(a.find_last_not_of(" \t") == std::string::npos || a.find_last_not_of(" \t") < 3, "flno");
    CHECK(a.compare(0, 2, "ab") != 0 || a[0] == 'a', "compare");
    CHECK(a.rfind("a", 0) != 0 || a[0] == 'a', "rfind");
    CHECK(std::equal(a.begin(), a.end(), v.begin()), "equal");
    CHECK(std::count(a.begin(), a.end(), 'c') <= 3, "count");
    CHECK(std::all_of(a.begin(), a.end(), [](char) { return true; }), "all");
    CHECK(std::lexicographical_compare(a.begin(), a.end(), a.begin(), a.end()) == false, "lex");
    std::string c = a + std::to_string(5) + '.' + std::to_string(-17l);
    CHECK(c.size() == 8, "to_string");
    c.replace(0, 1, "zzz");
    c.insert(1, "q");
    c.erase(2, 1);
    c.append(3, 'k').append("abc", 2);
    c.resize(20, 'p');
    c.reserve(100);
    CHECK(c.size() == 20 && c[19] == 'p', "edit");
    CHECK(memchr(a.data(), 'q', 3) == nullptr || true, "memchr");
    CHECK(strncmp(a.c_str(), "ab", 2) != 0 || a[1] == 'b', "strncmp");
    CHECK(strchr("abc", 'b') != nullptr && strstr("hello", "ll") != nullptr && strlen(a.c_str()) <= 3, "str");
    CHECK(strcmp("abc", "abd") < 0 && strcasecmp("AbC", "aBc") == 0, "strcmp");
    symx_reach("done");
}
extern "C" void st_numbers()
{
    CHECK(std::stoi("42") == 42 && std::stoul("77") == 77 && std::stoull("18446744073709551615") == UINT64_MAX && std::stol("-3") == -3 && std::stoi("ff", nullptr, 16) == 255, "sto");
    CHECK(strtoul("123", nullptr, 10) == 123 && strtol("-5x", nullptr, 10) == -5 && strtoull("0x10", nullptr, 0) == 16 && atoi("9") == 9, "strto");
    bool threw = false;
    try {
        std::stoi("x");
    } catch (const std::invalid_argument&) {
        threw = true;
    }
    CHECK(threw, "stoi throws");
    int v = 0;
    const char* t = "512";
    CHECK(std::from_chars(t, t + 3, v).ec == std::errc() && v == 512, "from_chars");
    char buf[20];
    auto r = std::to_chars(buf, buf + 20, 1234u);
    CHECK(std::string(buf, r.ptr) == "1234", "to_chars");
    snprintf(buf, sizeof buf, "%02x-%u-%s-%c-%5d|", 10, 7u, "ab", 'q', -3);
    CHECK(std::string(buf) == "0a-7-ab-q-   -3|", "snprintf");
    snprintf(buf, sizeof buf, "%.3s|%5s|%-4u|%+d|%#x|%03d", "abcdef", "xy", 7u, 5, 255, -4);
    CHECK(std::string(buf) == "abc|   xy|7   |+5|0", "snprintf cuts");
    snprintf(buf, sizeof buf, "%.*f %5.1f %zu", 2, 1.256, 2.25, (size_t)9);
    CHECK(std::string(buf) == "1.26   2.2 9", "snprintf of doubles");
    sprintf(buf, "%" PRIu64, (uint64_t)5);
    CHECK(std::string(buf) == "5", "sprintf");
    CHECK(std::numeric_limits<uint32_t>::max() == 0xffffffffu && UINT_MAX == 0xffffffffu, "limits");
    uint32_t x = symx<uint32_t>("x");
    CHECK(be32toh(htobe32(x)) == x && __builtin_bswap32(__builtin_bswap32(x)) == x && le16toh(5) == 5, "endian");
    CHECK(std::min(x, 5u) <= 5 && std::max<uint32_t>(x, 5) >= 5 && std::clamp(x, 1u, 9u) <= 9, "min");
    CHECK(__builtin_popcount(x) <= 32 && std::bitset<8>(5).count() == 2, "bits");
    CHECK(std::abs(-5) == 5 && std::floor(2.5) == 2.0 && std::fabs(-1.5) == 1.5 && std::ceil(1.2) == 2.0 && std::trunc(1.7) == 1.0, "math");
    CHECK(!std::isnan(1.0) && std::isinf(INFINITY) && std::signbit(-0.0), "fp");
    CHECK(boost::lexical_cast<int>("17") == 17 && boost::lexical_cast<std::string>(18) == "18", "lexical_cast");
    std::string viaTo = std::to_string(x);
    char text[8] = { 0 };
    symx_bytes(text, 3, "text");
    char both[40];
    int len = snprintf(both, sizeof both, "%s=%u", text, x);
    CHECK(len == (int)strlen(text) + 1 + (int)viaTo.size() && both == std::string(text) + "=" + viaTo, "snprintf of anything");
    std::ostringstream o;
    o << x << std::quoted(std::string("a\"b"));
    CHECK(o.str() == viaTo + "\"a\\\"b\"" && std::stoul(viaTo) == x, "to_string of any number");
    CHECK(std::to_string((int16_t)x) == boost::lexical_cast<std::string>((int16_t)x), "lexical_cast of any number");
    symx_reach("done");
}
extern "C" void st_streams()
{
    std::stringstream ss;
    ss << "a" << 5 << ' ' << -7 << ' ' << std::hex << 255 << std::dec << ' ' << 'c' << ' ' << true << ' ' << (uint64_t)9 << std::endl;
    CHECK(ss.str() == "a5 -7 ff c 1 9\n", "ostream");
    std::ostringstream o;
    o << std::setw(2) << std::setfill('0') << std::hex << 10 << std::uppercase << 171 << std::boolalpha << true << std::flush;
    CHECK(o.str() == "0aABtrue", "manip");
    std::istringstream is("12 ab  cd\nline two\n");
    int n = 0;
    std::string w, w2, l;
    is >> n >> w >> w2;
    CHECK(n == 12 && w == "ab" && w2 == "cd", "istream");
    std::getline(is, l);
    CHECK(l.empty(), "getline rest");
    CHECK((bool)std::getline(is, l) && l == "line two", "getline");
    CHECK(!std::getline(is, l), "eof");
    std::istringstream sp("a,b,c");
    size_t c = 0;
    while (std::getline(sp, l, ','))
        ++c;
    CHECK(c == 3, "split");
    std::stringstream hx;
    hx << std::hex << "1f";
    unsigned u;
    hx >> u;
    CHECK(u == 31, "hex in");
    o.str("");
    o.clear();
    o.write("abc", 2);
    o.put('z');
    CHECK(o.str() == "abz", "write");
    std::copy(l.begin(), l.end(), std::ostream_iterator<char>(o, ","));
    std::string s((std::istreambuf_iterator<char>(hx)), std::istreambuf_iterator<char>());
    std::ostringstream d;
    d << 1.5 << ' ' << 0.1f << ' ' << std::fixed << std::setprecision(2) << 3.14159;
    CHECK(d.str() == "1.5 0.1 3.14", "double");
    symx_reach("done");
}
extern "C" void st_streams2()
{
    std::cerr << "to stderr " << 5 << std::endl;
    std::cout << "to stdout" << '\n';
    std::clog << "x";
    fprintf(stderr, "%s %d %zu %lu %p\n", "a", 1, (size_t)2, 3ul, (void*)0);
    printf("hello\n");
    fputs("x", stderr);
    puts("y");
    fflush(stderr);
    fwrite("ab", 1, 2, stderr);
    perror("x");
    symx_reach("done");
}
extern "C" void st_containers()
{
    std::map<std::string, int> m { { "a", 1 }, { "b", 2 } };
    m.insert({ "c", 3 });
    m.insert_or_assign("c", 4);
    m.try_emplace("d", 5);
    m["e"]++;
    CHECK(m.count("e") && m.at("c") == 4 && m.size() == 5 && m.lower_bound("b")->second == 2, "map");
    std::unordered_map<std::string, int> u { { "x", 1 } };
    u.emplace("y", 2);
    std::string k = symxString(1, "k");
    u[k] = 7;
    CHECK(u.find(k) != u.end() && u.at(k) == 7, "unordered_map");
    u.erase("x");
    std::unordered_map<uint32_t, int> un;
    uint32_t key = symx<uint8_t>("n");
    un.emplace(key, 3);
    CHECK(un.count(key) == 1, "unordered int");
    std::unordered_set<int> us { 1, 2, 3 };
    std::set<int> s { 3, 1, 2 };
    CHECK(*s.begin() == 1 && us.size() == 3, "set");
    std::list<int> l { 1, 2 };
    l.push_front(0);
    l.remove(2);
    l.splice(l.end(), l, l.begin());
    std::deque<std::string> d;
    d.push_back("a");
    d.emplace_front("b");
    CHECK(d.front() == "b" && d.size() == 2, "deque");
    std::queue<int> q;
    q.push(1);
    std::stack<int> st;
    st.push(2);
    std::priority_queue<int> pq;
    pq.push(3);
    std::array<int, 3> ar { { 1, 2, 3 } };
    CHECK(std::accumulate(ar.begin(), ar.end(), 0) == 6, "array");
    std::vector<int> v { 3, 1, 2 };
    std::sort(v.begin(), v.end());
    std::stable_sort(v.begin(), v.end(), std::greater<int>());
    v.erase(std::remove_if(v.begin(), v.end(), [](int i) { return i == 2; }), v.end());
    v.insert(v.begin(), 5, 9);
    std::iota(v.begin(), v.end(), 0);
    CHECK(std::binary_search(v.begin(), v.end(), 3) && std::any_of(v.begin(), v.end(), [](int i) { return i == 1; }), "vector");
    std::rotate(v.begin(), v.begin() + 1, v.end());
    CHECK(std::distance(v.begin(), std::next(v.begin())) == 1, "it");
    std::optional<int> o;
    CHECK(!o && o.value_or(4) == 4, "optional");
    std::variant<int, std::string> va = std::string("x");
    CHECK(std::get<std::string>(va) == "x" && std::visit([](auto&&) { return 1; }, va) == 1, "variant");
    auto [p1, p2] = std::make_pair(1, 2);
    CHECK(std::get<1>(std::make_tuple(1, 2, 3)) == 2 && p1 < p2, "tuple");
    std::forward_list<int> fl { 1 };
    boost::optional<int> bo = 3;
    boost::any ba = std::string("s");
    CHECK(*bo == 3 && boost::any_cast<std::string>(ba) == "s" && boost::any_cast<int>(&ba) == nullptr, "boost");
    std::vector<std::string> parts;
    boost::split(parts, std::string("a=b,c"), boost::is_any_of(",="));
    CHECK(parts.size() == 3 && boost::join(parts, "-") == "a-b-c" && boost::starts_with("abc", "ab") && boost::trim_copy(std::string(" x ")) == "x", "boost strings");
    CHECK(boost::to_upper_copy(std::string("a")) == "A", "upper");
    std::multimap<int, int> mm;
    mm.emplace(1, 2);
    mm.emplace(1, 3);
    auto er = mm.equal_range(1);
    CHECK(std::distance(er.first, er.second) == 2, "multimap");
    std::unique_ptr<int[]> up(new int[4]());
    auto up2 = std::make_unique<std::string>("q");
    std::shared_ptr<int> sp = std::make_shared<int>(5);
    std::weak_ptr<int> wp = sp;
    CHECK(wp.lock() == sp, "ptr");
    struct E : std::enable_shared_from_this<E> { };
    auto e = std::make_shared<E>();
    CHECK(e->shared_from_this() == e, "esft");
    std::function<int(int)> f = std::bind([](int a, int b) { return a + b; }, 1, std::placeholders::_1);
    CHECK(f(2) == 3, "bind");
    CHECK(std::invoke([] { return 2; }) == 2, "invoke");
    std::vector<bool> vb(10, true);
    vb[3] = false;
    CHECK(std::count(vb.begin(), vb.end(), true) == 9, "vb");
    symx_reach("done");
}
static thread_local int t_local = 3;
static std::once_flag g_once;
extern "C" void st_threads()
{
    std::mutex m;
    std::condition_variable cv;
    std::atomic<int> a { 0 };
    std::atomic_bool ab(false);
    std::shared_mutex sm;
    std::recursive_mutex rm;
    bool ready = false;
    int onces = 0;
    std::thread t([&] {
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return ready; });
        }
        {
            std::shared_lock<std::shared_mutex> l(sm);
        }
        a.fetch_add(2, std::memory_order_relaxed);
        ab.store(true, std::memory_order_release);
        t_local = 9;
        std::call_once(g_once, [&] { ++onces; });
    });
    {
        std::lock_guard<std::mutex> l(m);
        ready = true;
    }
    cv.notify_one();
    {
        std::unique_lock<std::shared_mutex> l(sm);
    }
    {
        std::scoped_lock l(m, rm);
    }
    {
        std::unique_lock<std::mutex> l(m, std::try_to_lock);
        std::unique_lock<std::recursive_mutex> l2(rm, std::defer_lock);
        l2.lock();
    }
    int exp = 77;
    a.compare_exchange_strong(exp, 5);
    std::call_once(g_once, [&] { ++onces; });
    t.join();
    CHECK(a == 2 && ab && t_local == 3 && onces == 1, "threads");
    boost::mutex bm;
    {
        boost::mutex::scoped_lock l(bm);
        boost::lock_guard<boost::recursive_mutex> lx(*new boost::recursive_mutex);
        boost::unique_lock<boost::mutex> l3(*new boost::mutex);
    }
    std::atomic<uint32_t> n { 1 };
    uint32_t r = n++;
    uint32_t cur = n.load();
    while (!n.compare_exchange_weak(cur, cur + 1)) { }
    CHECK(r == 1 && n == 3, "atomic");
    symx_reach("done");
}
extern "C" void st_threads2()
{
    std::promise<int> p;
    auto f = p.get_future();
    std::thread t([&] { p.set_value(3); });
    CHECK(f.get() == 3, "future");
    t.join();
    symx_reach("done");
}
extern "C" void st_threads3()
{
    boost::condition_variable cv;
    boost::mutex m;
    bool ready = false;
    boost::thread t([&] { boost::unique_lock<boost::mutex> l(m); while (!ready) cv.wait(l); });
    {
        boost::lock_guard<boost::mutex> l(m);
        ready = true;
    }
    cv.notify_all();
    t.join();
    symx_reach("done");
}
extern "C" void st_shared_boost()
{
    boost::shared_mutex m;
    {
        boost::shared_lock<boost::shared_mutex> l(m);
    }
    {
        boost::unique_lock<boost::shared_mutex> l(m);
    }
    symx_reach("done");
}
struct Base {
    virtual ~Base() {}
    virtual int f() const { return 1; }
};
struct Der : Base {
    int f() const override { return 2; }
};
extern "C" void st_language()
{
    std::unique_ptr<Base> b(new Der);
    CHECK(dynamic_cast<Der*>(b.get()) && b->f() == 2 && typeid(*b) == typeid(Der), "rtti");
    try {
        std::vector<int>().at(3);
    } catch (const std::out_of_range&) {
        symx_reach("range");
    }
    try {
        std::string("a").substr(5);
    } catch (const std::out_of_range& e) {
        CHECK(std::string(e.what()).size() > 3, "what");
    }
    static const std::map<char, int> table { { 'y', 1 }, { 'n', 2 } };
    static const char* const names[] = { "a", "b" };
    char c = symx<char>("c");
    auto it = table.find(c);
    CHECK(it == table.end() || it->second < 3, "static");
    CHECK(std::string(names[1]) == "b", "names");
    auto now = std::chrono::steady_clock::now();
    CHECK(std::chrono::steady_clock::now() >= now, "clock");
    std::vector<uint8_t> by(10);
    std::fill(by.begin(), by.end(), 3);
    std::copy_n(by.begin(), 3, by.begin() + 5);
    std::memmove(by.data() + 1, by.data(), 5);
    CHECK(std::memcmp(by.data(), by.data(), 10) == 0, "mem");
    uint32_t w;
    std::memcpy(&w, by.data() + 1, 4);
    CHECK(w == 0x03030303u, "word");
    int vla = 5;
    auto gen = [n = 0]() mutable { return n++; };
    gen();
    CHECK(gen() == 1, "gen");
    errno = 0;
    CHECK(strerror(2) != nullptr, "strerror");
    std::error_code ec = std::make_error_code(std::errc::timed_out);
    CHECK(ec.value() == 110, "error_code");
    CHECK(getenv("NOT_SET_AT_ALL") == nullptr, "getenv");
    char* dup = strdup("abc");
    free(dup);
    (void)vla;
    symx_reach("done");
}
// atomics are scheduling points; waiting for one lets the other threads go on
extern "C" void st_spin()
{
    std::atomic<bool> flag { false };
    std::atomic_flag lock = ATOMIC_FLAG_INIT;
    int n = 0, times = 0;
    std::thread t([&] {
        while (lock.test_and_set())
            ;
        ++n;
        lock.clear();
        flag = true;
    });
    while (lock.test_and_set())
        std::this_thread::yield();
    ++n;
    lock.clear();
    while (!flag)
        ;
    while (!flag.load(std::memory_order_acquire) && times++ < 1000)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    t.join();
    CHECK(n == 2 && times < 1000, "spin");
    symx_reach("done");
}
// an update that is lost (expected: a violation)
extern "C" void st_lost()
{
    std::atomic<int> a { 0 };
    std::thread t([&] { a = a + 1; });
    a = a + 1;
    t.join();
    int v = a;
    symx_observe("a", &v, sizeof v);
    CHECK(a == 2, "lost update");
    symx_reach("done");
}
