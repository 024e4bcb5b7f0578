// decimal text as the other formatting functions make it (see libstdcxx.cpp); other bases as in libstdc++
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <type_traits>
#include <ext/numeric_traits.h>
namespace symx_rt {
unsigned decimal(unsigned long v, char* out);
}
namespace std {
namespace __detail {
template <typename _Tp>
constexpr bool __integer_to_chars_is_unsigned = !__gnu_cxx::__int_traits<_Tp>::__is_signed;
template <typename T>
constexpr unsigned __to_chars_len(T value, int base = 10) noexcept
{
    if (base == 10) {
        char text[24] = {};
        return symx_rt::decimal(value, text);
    }
    unsigned n = 1;
    for (; value >= (unsigned)base; value /= (unsigned)base)
        ++n;
    return n;
}
template <typename T>
void __to_chars_10_impl(char* first, unsigned, T value) noexcept
{
    symx_rt::decimal(value, first);
}
}
}
#endif
