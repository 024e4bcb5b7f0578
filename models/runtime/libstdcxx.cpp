// Out-of-line parts of the C++ runtime, for symbolic execution.
#include <cerrno>
#include <cstdarg>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>

extern "C" void symx_unsupported(const char*);

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

static char* dupstr(const char* s, size_t n)
{
    char* p = (char*)malloc(n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() { _M_p = dupstr("", 0); }
__cow_string::__cow_string(const string& s) { _M_p = dupstr(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupstr(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept
{
    if (this != &o) {
        free((void*)_M_p);
        _M_p = dupstr(o._M_p, strlen(o._M_p));
    }
    return *this;
}
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupstr(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { return *this = (const __cow_string&)o; }

#define BASE_EXC(X)                                                        \
    X::X(const string& s) : _M_msg(s) {}                                   \
    X::X(const char* s) : _M_msg(s, strlen(s)) {}                          \
    X::X(const X& o) noexcept : exception(o), _M_msg(o._M_msg) {}          \
    X& X::operator=(const X& o) noexcept { _M_msg = o._M_msg; return *this; } \
    X::X(X&& o) noexcept : exception(o), _M_msg(o._M_msg) {}               \
    X& X::operator=(X&& o) noexcept { _M_msg = o._M_msg; return *this; }   \
    X::~X() noexcept {}                                                    \
    const char* X::what() const noexcept { return _M_msg._M_p; }
BASE_EXC(logic_error)
BASE_EXC(runtime_error)
#define DER_EXC(X, B)                      \
    X::X(const string& s) : B(s) {}        \
    X::X(const char* s) : B(s) {}          \
    X::~X() noexcept {}
DER_EXC(domain_error, logic_error)
DER_EXC(invalid_argument, logic_error)
DER_EXC(length_error, logic_error)
DER_EXC(out_of_range, logic_error)
DER_EXC(range_error, runtime_error)
DER_EXC(overflow_error, runtime_error)
DER_EXC(underflow_error, runtime_error)

system_error::~system_error() noexcept {}

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

namespace {
struct cat : error_category {
    const char* name() const noexcept override { return "generic"; }
    string message(int) const override { return "error"; }
};
}
error_category::~error_category() {}
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int c, const error_condition& o) const noexcept { return c == o.value(); }
bool error_category::equivalent(const error_code& c, int o) const noexcept { return c.value() == o; }
#if _GLIBCXX_USE_CXX11_ABI
__cow_string error_category::_M_message(int) const { return __cow_string(); }
#endif
inline namespace _V2 {
const error_category& generic_category() noexcept
{
    static cat c;
    return c;
}
const error_category& system_category() noexcept
{
    static cat c;
    return c;
}
}
void __throw_system_error(int e) { throw system_error(error_code(e, _V2::generic_category())); }
} // namespace std
extern "C" {
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_throw_bad_array_length() { throw std::bad_array_new_length(); }
}

// ---------------------------------------------------------------- containers
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y)
            x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
        x = x->_M_right;
    else if (x->_M_left) {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }

static void rotL(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left)
        y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_left)
        x->_M_parent->_M_left = y;
    else
        x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotR(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
    _Rb_tree_node_base* y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right)
        y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root)
        root = y;
    else if (x == x->_M_parent->_M_right)
        x->_M_parent->_M_right = y;
    else
        x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right)
            h._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base* const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) {
                    x = x->_M_parent;
                    rotL(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotR(xpp, root);
            }
        } else {
            _Rb_tree_node_base* const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black;
                y->_M_color = _S_black;
                xpp->_M_color = _S_red;
                x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) {
                    x = x->_M_parent;
                    rotR(x, root);
                }
                x->_M_parent->_M_color = _S_black;
                xpp->_M_color = _S_red;
                rotL(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base*& root = h._M_parent;
    _Rb_tree_node_base*& leftmost = h._M_left;
    _Rb_tree_node_base*& rightmost = h._M_right;
    _Rb_tree_node_base* y = z;
    _Rb_tree_node_base* x = 0;
    _Rb_tree_node_base* xp = 0;
    if (y->_M_left == 0)
        x = y->_M_right;
    else if (y->_M_right == 0)
        x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left != 0)
            y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x)
                x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else
            xp = y;
        if (root == z)
            root = y;
        else if (z->_M_parent->_M_left == z)
            z->_M_parent->_M_left = y;
        else
            z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x)
            x->_M_parent = y->_M_parent;
        if (root == z)
            root = x;
        else if (z->_M_parent->_M_left == z)
            z->_M_parent->_M_left = x;
        else
            z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (z->_M_right == 0)
                leftmost = z->_M_parent;
            else
                leftmost = _Rb_tree_node_base::_S_minimum(x);
        }
        if (rightmost == z) {
            if (z->_M_left == 0)
                rightmost = z->_M_parent;
            else
                rightmost = _Rb_tree_node_base::_S_maximum(x);
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base* w = xp->_M_right;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotL(xp, root);
                    w = xp->_M_right;
                }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) {
                        w->_M_left->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotR(w, root);
                        w = xp->_M_right;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_right)
                        w->_M_right->_M_color = _S_black;
                    rotL(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base* w = xp->_M_left;
                if (w->_M_color == _S_red) {
                    w->_M_color = _S_black;
                    xp->_M_color = _S_red;
                    rotR(xp, root);
                    w = xp->_M_left;
                }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red;
                    x = xp;
                    xp = xp->_M_parent;
                } else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) {
                        w->_M_right->_M_color = _S_black;
                        w->_M_color = _S_red;
                        rotL(w, root);
                        w = xp->_M_left;
                    }
                    w->_M_color = xp->_M_color;
                    xp->_M_color = _S_black;
                    if (w->_M_left)
                        w->_M_left->_M_color = _S_black;
                    rotR(xp, root);
                    break;
                }
            }
        if (x)
            x->_M_color = _S_black;
    }
    return y;
}

namespace __detail {
void _List_node_base::swap(_List_node_base&, _List_node_base&) noexcept { symx_unsupported("list swap"); }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this != l) {
        l->_M_prev->_M_next = this;
        f->_M_prev->_M_next = l;
        this->_M_prev->_M_next = f;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = l->_M_prev;
        l->_M_prev = f->_M_prev;
        f->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept { symx_unsupported("list reverse"); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next;
    _List_node_base* const p = this->_M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}

// bucket counts only affect iteration order and speed
static const size_t kPrimes[] = { 2, 5, 11, 23, 47, 97, 197, 397, 797, 1597 };
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    for (size_t p : kPrimes)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    symx_unsupported("hash table too large");
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        size_t want = ne + ni;
        if (want < nb * 2)
            want = nb * 2;
        return { true, _M_next_bkt(want) };
    }
    return { false, 0 };
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    // any function of the bytes would do: equality of keys is what decides
    size_t h = seed;
    for (size_t i = 0; i < n; ++i)
        h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ul;
    return h;
}
bool _Sp_make_shared_tag::_S_eq(const type_info& ti) noexcept { return ti == typeid(_Sp_make_shared_tag); }
} // namespace std

// ---------------------------------------------------------------- type_info: only vtable pointers and names are used
// (the ABI classes' vtables stay external; the engine reads type_info initialisers directly)

// ---------------------------------------------------------------- locale and streams
namespace std {
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw()
{
    _M_impl = o._M_impl;
    return *this;
}
const locale& locale::classic()
{
    static locale l;
    return l;
}
ios_base::ios_base() throw() {}
ios_base::~ios_base() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
ostream cout(nullptr), cerr(nullptr), clog(nullptr);
istream cin(nullptr);
}

extern "C" {
int symx_is_symbolic(unsigned long v);
void symx_fresh(void* p, unsigned long n);
void symx_assume(int c);
unsigned long symx_ite(int c, unsigned long a, unsigned long b);
int symx_eq(const void* a, const void* b, size_t n);
}

namespace symx_rt {
static const unsigned long kPow[] = { 1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul,
    100000000000ul, 1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul,
    1000000000000000000ul, 10000000000000000000ul };

static bool g_opaque = false;
// the texts made for symbolic numbers: reading one back gives the number again
struct Memo {
    unsigned long v;
    unsigned n;
    bool opaque;
    char text[20];
};
static Memo g_memo[64];
static unsigned g_memos = 0;
static void remember(unsigned long v, const char* text, unsigned n)
{
    Memo& m = g_memo[g_memos++ % 64];
    m.v = v;
    m.n = n;
    m.opaque = g_opaque;
    for (unsigned i = 0; i < n; ++i)
        m.text[i] = text[i];
}
// the number whose whole text `s` is, if it was made by decimal()
static bool recall(const char* s, unsigned long* v, unsigned* len)
{
    if (!symx_is_symbolic((unsigned char)*s))
        return false;
    for (unsigned k = g_memos; k-- > 0 && g_memos - k <= 64;) {
        const Memo& m = g_memo[k % 64];
        unsigned i = 0;
        while (i < m.n) { // the same expression, not just an equal value
            int e = symx_eq(s + i, m.text + i, 1);
            if (symx_is_symbolic(e) || !e)
                break;
            ++i;
        }
        if (i == m.n && !symx_is_symbolic((unsigned char)s[i]) && !s[i]) {
            *v = m.v;
            *len = m.n;
            return true;
        }
    }
    return false;
}
unsigned decimal(unsigned long v, char* out)
{
    if (symx_is_symbolic(v))
        for (unsigned k = g_memos; k-- > 0 && g_memos - k <= 8;) { // the same expression has the same text
            const Memo& m = g_memo[k % 64];
            int e = symx_eq(&v, &m.v, sizeof v);
            if (m.opaque != g_opaque || symx_is_symbolic(e) || !e)
                continue;
            for (unsigned i = 0; i < m.n; ++i)
                out[i] = m.text[i];
            return m.n;
        }
    if (g_opaque && symx_is_symbolic(v)) { // one digit which stands for the number
        unsigned char d;
        symx_fresh(&d, 1);
        symx_assume(d < 10);
        out[0] = (char)(d + '0');
        remember(v, out, 1);
        return 1;
    }
    if (!symx_is_symbolic(v)) {
        char t[24];
        unsigned n = 0;
        do {
            t[n++] = '0' + v % 10;
            v /= 10;
        } while (v);
        for (unsigned i = 0; i < n; ++i)
            out[i] = t[n - 1 - i];
        return n;
    }
    unsigned n = 1;
    while (n < 20 && v >= kPow[n])
        ++n;
    // n digits whose value is v: unique, so this is the decimal text
    unsigned char d[20];
    symx_fresh(d, n);
    unsigned long acc = 0;
    int ok = 1;
    unsigned long mag = v;
    for (unsigned i = 0; i < n; ++i) {
        symx_assume(d[i] < 10);
        acc = acc * 10 + d[i];
        out[i] = (char)(d[i] + '0');
    }
    if (n > 1)
        ok &= d[0] != 0;
    if (n == 20)
        ok &= d[0] == 1;
    ok &= acc == mag;
    symx_assume(ok);
    remember(v, out, n);
    return n;
}
unsigned hexdigits(unsigned long v, char* out, bool upper)
{
    unsigned n = 1;
    while (n < 16 && (v >> (4 * n)) != 0)
        ++n;
    for (unsigned i = 0; i < n; ++i) {
        unsigned long x = (v >> (4 * (n - 1 - i))) & 15;
        out[i] = (char)symx_ite(x < 10, '0' + x, (upper ? 'A' : 'a') + x - 10);
    }
    return n;
}
unsigned octdigits(unsigned long v, char* out)
{
    unsigned n = 1;
    while (n < 22 && (v >> (3 * n)) != 0)
        ++n;
    for (unsigned i = 0; i < n; ++i)
        out[i] = (char)('0' + ((v >> (3 * (n - 1 - i))) & 7));
    return n;
}
unsigned dbl(double v, char* out, int prec, unsigned fl)
{
    if (fl == std::ios_base::fixed)
        return snprintf(out, 500, "%.*f", prec, v);
    if (fl == std::ios_base::scientific)
        return snprintf(out, 500, "%.*e", prec, v);
    return snprintf(out, 500, "%.*g", prec, v);
}
}

extern "C" {
int vsnprintf(char*, size_t, const char*, va_list) noexcept;
int snprintf(char* b, size_t n, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
int fprintf(FILE* fp, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = vfprintf(fp, f, ap);
    va_end(ap);
    return r;
}

// strtol family: white space, sign, optional 0x in base 16, digits
static unsigned long strtoAny(const char* s, char** end, int base, unsigned long limPos, unsigned long limNeg, bool isSigned, bool& neg, bool& over)
{
    const char* p = s;
    neg = over = false;
    unsigned long number;
    unsigned digits;
    bool recalled = base == 10 && symx_rt::recall(p, &number, &digits);
    if (!recalled) {
        while ((*p == ' ') | ((unsigned char)(*p - 9) < 5))
            ++p;
        if (*p == '-' || *p == '+') {
            neg = *p == '-';
            ++p;
        }
        recalled = base == 10 && symx_rt::recall(p, &number, &digits);
    }
    if (recalled) {
        over = number > (neg ? limNeg : limPos);
        if (end)
            *end = (char*)p + digits;
        if (over)
            errno = ERANGE;
        return number;
    }
    if ((base == 0 || base == 16) && *p == '0' && (p[1] | 32) == 'x') {
        unsigned char c = p[2];
        if ((unsigned char)(c - '0') < 10 || (unsigned char)((c | 32) - 'a') < 6) {
            p += 2;
            base = 16;
        }
    }
    if (base == 0)
        base = *p == '0' ? 8 : 10;
    unsigned long lim = neg ? limNeg : limPos;
    unsigned long v = 0;
    unsigned n = 0;
    for (;; ++p) {
        unsigned char c = (unsigned char)*p;
        unsigned long d;
        if ((unsigned char)(c - '0') < 10)
            d = (unsigned char)(c - '0');
        else if (base > 10 && (unsigned char)((c | 32) - 'a') < 26)
            d = (c | 32) - 'a' + 10;
        else
            break;
        if (d >= (unsigned long)base)
            break;
        if (++n > 15 && !over && v > (lim - d) / base)
            over = true;
        if (!over)
            v = v * base + d;
    }
    if (end)
        *end = (char*)(n ? p : s);
    if (over)
        errno = ERANGE;
    return v;
}
long strtol(const char* s, char** end, int base) noexcept
{
    bool neg, over;
    unsigned long v = strtoAny(s, end, base, LONG_MAX, 1ul << 63, true, neg, over);
    if (over)
        return neg ? LONG_MIN : LONG_MAX;
    return neg ? (long)(0ul - v) : (long)v;
}
unsigned long strtoul(const char* s, char** end, int base) noexcept
{
    bool neg, over;
    unsigned long v = strtoAny(s, end, base, ULONG_MAX, ULONG_MAX, false, neg, over);
    if (over)
        return ULONG_MAX;
    return neg ? 0ul - v : v;
}
long long strtoll(const char* s, char** end, int base) noexcept { return strtol(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) noexcept { return strtoul(s, end, base); }
int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); }
int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isgraph(int c) noexcept { return c > 32 && c < 127; }

// the environment starts out empty
struct symx_env { symx_env* next; char* name; char* value; };
static symx_env* symx_environment;
static symx_env* symx_envFind(const char* name)
{
    symx_env* e = symx_environment;
    while (e && (!e->value || strcmp(e->name, name)))
        e = e->next;
    return e;
}
char* getenv(const char* name) noexcept
{
    symx_env* e = symx_envFind(name);
    return e ? e->value : nullptr;
}
char* secure_getenv(const char* name) noexcept { return getenv(name); }
int setenv(const char* name, const char* value, int overwrite) noexcept
{
    symx_env* e = symx_envFind(name);
    if (e && !overwrite)
        return 0;
    if (!e) {
        e = (symx_env*)malloc(sizeof(symx_env));
        e->next = symx_environment;
        e->name = std::dupstr(name, strlen(name));
        symx_environment = e;
    }
    e->value = std::dupstr(value, strlen(value));
    return 0;
}
int unsetenv(const char* name) noexcept
{
    while (symx_env* e = symx_envFind(name))
        e->value = nullptr;
    return 0;
}
__attribute__((weak)) unsigned symx_uid = 1000;
__attribute__((weak)) unsigned getuid() noexcept { return symx_uid; }
__attribute__((weak)) unsigned geteuid() noexcept { return symx_uid; }
#undef strncpy
char* strncpy(char* d, const char* s, size_t n) noexcept
{
    size_t i = 0;
    for (; i < n && s[i]; ++i)
        d[i] = s[i];
    for (; i < n; ++i)
        d[i] = 0;
    return d;
}
char* strcpy(char* d, const char* s) noexcept
{
    size_t i = 0;
    do
        d[i] = s[i];
    while (s[i++]);
    return d;
}
char* strcat(char* d, const char* s) noexcept
{
    strcpy(d + strlen(d), s);
    return d;
}
char* strdup(const char* s) noexcept
{
    size_t n = strlen(s) + 1;
    char* p = (char*)malloc(n);
    memcpy(p, s, n);
    return p;
}
char* strerror_r(int, char* b, size_t n) noexcept
{
    if (n)
        b[0] = 0;
    return (char*)"error";
}
char* strerror(int) noexcept { return (char*)"error"; }
int strcasecmp(const char* a, const char* b) noexcept
{
    for (;; ++a, ++b) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y)
            return x - y;
        if (!x)
            return 0;
    }
}
int strncasecmp(const char* a, const char* b, size_t n) noexcept
{
    for (; n; ++a, ++b, --n) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y)
            return x - y;
        if (!x)
            return 0;
    }
    return 0;
}
}

extern "C" void symx_opaque_numbers(int on) { symx_rt::g_opaque = on; }

// ------------------------------------------------------------------ output: counted and discarded
static unsigned long g_logged = 0;
extern "C" {
int symx_readfmt(const char* fmt, va_list ap);
unsigned long symx_logged() { return g_logged; }
int vfprintf(FILE*, const char* fmt, va_list ap)
{
    int n = symx_readfmt(fmt, ap);
    if (n > 0)
        ++g_logged;
    return n;
}
int fputs(const char* s, FILE*)
{
    if (symx_rt::g_opaque && symx_is_symbolic((unsigned char)*s))
        ++g_logged;
    else if (*s)
        ++g_logged;
    return 1;
}
int fputc(int c, FILE*)
{
    ++g_logged;
    return c;
}
int putc(int c, FILE*)
{
    ++g_logged;
    return c;
}
size_t fwrite(const void* p, size_t s, size_t n, FILE*)
{
    volatile unsigned char last;
    if (s && n) {
        last = ((const unsigned char*)p)[0];
        last = ((const unsigned char*)p)[s * n - 1];
        ++g_logged;
    }
    (void)last;
    return n;
}
}

// ---------------------------------------------------------------- std::thread over pthreads
#include <pthread.h>
#include <thread>
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    auto run = [](void* p) -> void* {
        _State_ptr st((_State*)p);
        st->_M_run();
        return nullptr;
    };
    pthread_create(&_M_id._M_thread, nullptr, run, s.release());
}
void thread::join()
{
    if (_M_id == id())
        __throw_system_error(22);
    pthread_join(_M_id._M_thread, nullptr);
    _M_id = id();
}
void thread::detach()
{
    if (_M_id == id())
        __throw_system_error(22);
    pthread_detach(_M_id._M_thread);
    _M_id = id();
}
unsigned thread::hardware_concurrency() noexcept { return 1; }
}

// ---------------------------------------------------------------- condition variables, exception pointers
#include <condition_variable>
namespace std {
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); }
void condition_variable::notify_one() noexcept { _M_cond.notify_one(); }
void condition_variable::notify_all() noexcept { _M_cond.notify_all(); }
condition_variable_any* _symx_unused_cva();
}

// ---------------------------------------------------------------- character classes of the classic locale
#include <locale>
namespace std {
locale::facet::~facet() {}
locale::id ctype<char>::id;
static ctype_base::mask g_classes[256];
static const ctype_base::mask* classes()
{
    if (!g_classes[' '])
        for (int c = 0; c < 128; ++c) {
            ctype_base::mask m = 0;
            if (c >= 'A' && c <= 'Z')
                m |= ctype_base::upper | ctype_base::alpha;
            if (c >= 'a' && c <= 'z')
                m |= ctype_base::lower | ctype_base::alpha;
            if (c >= '0' && c <= '9')
                m |= ctype_base::digit;
            if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))
                m |= ctype_base::xdigit;
            if (c == ' ' || (c >= 9 && c <= 13))
                m |= ctype_base::space;
            if (c == ' ' || c == 9)
                m |= ctype_base::blank;
            if (c < 32 || c == 127)
                m |= ctype_base::cntrl;
            else
                m |= ctype_base::print;
            if (c > 32 && c < 127 && !(m & (ctype_base::alpha | ctype_base::digit)))
                m |= ctype_base::punct;
            g_classes[c] = m;
        }
    return g_classes;
}
ctype<char>::ctype(const mask* t, bool, size_t refs) : facet(refs), _M_c_locale_ctype(0), _M_del(false), _M_toupper(0), _M_tolower(0), _M_table(t ? t : classes()), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return (unsigned char)(c - 'a') < 26 ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return (unsigned char)(c - 'A') < 26 ? c + 32 : c; }
const char* ctype<char>::do_toupper(char* p, const char* e) const
{
    for (; p < e; ++p)
        *p = do_toupper(*p);
    return e;
}
const char* ctype<char>::do_tolower(char* p, const char* e) const
{
    for (; p < e; ++p)
        *p = do_tolower(*p);
    return e;
}
const ctype<char>& _symx_ctype()
{
    alignas(ctype<char>) static char at[sizeof(ctype<char>)];
    static ctype<char>* c = new (at) ctype<char>(nullptr, false, 1);
    return *c;
}
}

// ---------------------------------------------------------------- the rest of stdio
extern "C" {
int symx_vsnprintf(char*, size_t, const char*, va_list);
size_t symx_certain_end(const char*);
void symx_va_check(va_list);
static int concreteFormat(char* b, size_t n, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = symx_vsnprintf(b, n, f, ap);
    va_end(ap);
    return r;
}
namespace {
struct Printed {
    char* b;
    size_t room, n;
    void put(char c)
    {
        if (n + 1 < room)
            b[n] = c;
        ++n;
    }
    void padded(const char* prefix, size_t prefixLen, const char* s, size_t len, size_t zeros, size_t width, bool left, char fill)
    {
        size_t all = prefixLen + zeros + len, pad = width > all ? width - all : 0;
        if (!left && fill == ' ')
            for (size_t i = 0; i < pad; ++i)
                put(' ');
        for (size_t i = 0; i < prefixLen; ++i)
            put(prefix[i]);
        if (!left && fill == '0')
            for (size_t i = 0; i < pad; ++i)
                put('0');
        for (size_t i = 0; i < zeros; ++i)
            put('0');
        for (size_t i = 0; i < len; ++i)
            put(s[i]);
        if (left)
            for (size_t i = 0; i < pad; ++i)
                put(' ');
    }
};
}
int vsnprintf(char* b, size_t n, const char* f, va_list ap) noexcept
{
    Printed out = { b, n, 0 };
    for (; *f; ++f) {
        if (*f != '%') {
            out.put(*f);
            continue;
        }
        const char* start = f++;
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; ++f) {
            if (*f == '-')
                left = true;
            else if (*f == '0')
                zero = true;
            else if (*f == '+')
                plus = true;
            else if (*f == ' ')
                space = true;
            else if (*f == '#')
                alt = true;
            else
                break;
        }
        long width = 0, prec = -1;
        if (*f == '*') {
            symx_va_check(ap);
            width = va_arg(ap, int);
            if (width < 0) {
                left = true;
                width = -width;
            }
            ++f;
        } else
            for (; *f >= '0' && *f <= '9'; ++f)
                width = width * 10 + *f - '0';
        if (*f == '.') {
            ++f;
            prec = 0;
            if (*f == '*') {
                symx_va_check(ap);
                prec = va_arg(ap, int);
                ++f;
            } else
                for (; *f >= '0' && *f <= '9'; ++f)
                    prec = prec * 10 + *f - '0';
        }
        int size = 4;
        for (;; ++f) {
            if (*f == 'h')
                size /= 2;
            else if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't')
                size = 8;
            else
                break;
        }
        if (*f == '%') {
            out.put('%');
            continue;
        }
        char text[32];
        switch (*f) {
        case 'd':
        case 'i': {
            symx_va_check(ap);
            long v = size == 8 ? va_arg(ap, long) : va_arg(ap, int);
            if (size == 2)
                v = (short)v;
            if (size == 1)
                v = (signed char)v;
            bool neg = v < 0;
            size_t len = v == 0 && prec == 0 ? 0 : symx_rt::decimal(neg ? 0ul - (unsigned long)v : (unsigned long)v, text);
            char sign = neg ? '-' : plus ? '+' : ' ';
            out.padded(&sign, neg || plus || space, text, len, prec > (long)len ? prec - len : 0, width, left, zero && prec < 0 ? '0' : ' ');
            break;
        }
        case 'u':
        case 'x':
        case 'X':
        case 'o': {
            symx_va_check(ap);
            unsigned long v = size == 8 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (size == 2)
                v = (unsigned short)v;
            if (size == 1)
                v = (unsigned char)v;
            size_t len = v == 0 && prec == 0 ? 0 : *f == 'u' ? symx_rt::decimal(v, text) : *f == 'o' ? symx_rt::octdigits(v, text) : symx_rt::hexdigits(v, text, *f == 'X');
            char prefix[2] = { '0', *f };
            out.padded(prefix, !alt || *f == 'u' || !v ? 0 : *f == 'o' ? 1 : 2, text, len, prec > (long)len ? prec - len : 0, width, left, zero && prec < 0 ? '0' : ' ');
            break;
        }
        case 'c': {
            symx_va_check(ap);
            text[0] = (char)va_arg(ap, int);
            out.padded(nullptr, 0, text, 1, 0, width, left, ' ');
            break;
        }
        case 's': {
            symx_va_check(ap);
            const char* s = va_arg(ap, const char*);
            if (!s)
                s = "(null)";
            size_t len = symx_rt::g_opaque && prec < 0 ? symx_certain_end(s) : (size_t)-1; // bytes that may or may not be NUL are no matter
            if (len == (size_t)-1)
                for (len = 0; (prec < 0 || len < (size_t)prec) && s[len]; ++len)
                    ;
            out.padded(nullptr, 0, s, len, 0, width, left, ' ');
            break;
        }
        case 'p': {
            symx_va_check(ap);
            size_t len = symx_rt::hexdigits((unsigned long)va_arg(ap, void*), text, false);
            out.padded("0x", 2, text, len, 0, width, left, ' ');
            break;
        }
        case 'f':
        case 'F':
        case 'g':
        case 'G':
        case 'e':
        case 'E': {
            symx_va_check(ap);
            std::string spec(start, f + 1 - start), number;
            double d = va_arg(ap, double);
            number.resize(512);
            int len = spec.find('*') == std::string::npos ? concreteFormat(&number[0], 512, spec.c_str(), d)
                : prec >= 0 && spec.find('*') == spec.rfind('*') && spec[spec.find('*') - 1] == '.'
                ? concreteFormat(&number[0], 512, spec.c_str(), (int)prec, d)
                : concreteFormat(&number[0], 512, spec.c_str(), (int)width, d);
            for (int i = 0; i < len; ++i)
                out.put(number[i]);
            break;
        }
        default:
            return concreteFormat(b, n, "%?"); // not modelled
        }
    }
    if (n)
        b[out.n < n ? out.n : n - 1] = 0;
    return (int)out.n;
}
int vsprintf(char* b, const char* f, va_list ap) noexcept { return vsnprintf(b, 1 << 20, f, ap); }
int sprintf(char* b, const char* f, ...) noexcept
{
    va_list ap;
    va_start(ap, f);
    int r = vsnprintf(b, 1 << 20, f, ap);
    va_end(ap);
    return r;
}
int puts(const char* s)
{
    fputs(s, stdout);
    return 1;
}
}
extern "C" {
void perror(const char* s)
{
    fputs(s ? s : "", stderr);
    fputs("\n", stderr);
}
// readers exclude each other too: fewer schedules, all of them real
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) noexcept { return pthread_mutex_init((pthread_mutex_t*)r, nullptr); }
int pthread_rwlock_destroy(pthread_rwlock_t* r) noexcept { return pthread_mutex_destroy((pthread_mutex_t*)r); }
int pthread_rwlock_rdlock(pthread_rwlock_t* r) noexcept { return pthread_mutex_lock((pthread_mutex_t*)r); }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) noexcept { return pthread_mutex_lock((pthread_mutex_t*)r); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) noexcept { return pthread_mutex_trylock((pthread_mutex_t*)r); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) noexcept { return pthread_mutex_trylock((pthread_mutex_t*)r); }
int pthread_rwlock_unlock(pthread_rwlock_t* r) noexcept { return pthread_mutex_unlock((pthread_mutex_t*)r); }
}
namespace std {
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }
}
#include <chrono>
#include <time.h>
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
system_clock::time_point system_clock::now() noexcept
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}
}
}
namespace std {
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
}
