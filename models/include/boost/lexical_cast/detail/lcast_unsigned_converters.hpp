// decimal text as the other formatting functions make it (see libstdcxx.cpp)
#ifndef SYMX_MODEL_LCAST
#define SYMX_MODEL_LCAST
#define lcast_put_unsigned lcast_put_unsigned_original
#include_next <boost/lexical_cast/detail/lcast_unsigned_converters.hpp>
#undef lcast_put_unsigned
namespace symx_rt {
unsigned decimal(unsigned long v, char* out);
}
namespace boost {
namespace detail {
template <class Traits, class T, class CharT>
class lcast_put_unsigned : boost::noncopyable {
    T m_value;
    CharT* m_finish;

public:
    lcast_put_unsigned(const T value, CharT* finish) noexcept
        : m_value(value), m_finish(finish)
    {
    }
    CharT* convert()
    {
        char text[24];
        unsigned n = symx_rt::decimal(m_value, text);
        m_finish -= n;
        for (unsigned i = 0; i < n; ++i)
            m_finish[i] = CharT(text[i]);
        return m_finish;
    }
};
}
}
#endif
