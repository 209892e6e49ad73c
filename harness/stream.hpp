// Text streams for the harnesses: the string streams of libstdc++ are executed as they are, except for the locale (none)
// and the decimal conversion of integers, which goes through sx_digits().
// To be included before everything else.
#pragma once
#if defined(SX_SYMBOLIC)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <cstring>
#include <ios>
#if defined(SX_SYMBOLIC)
template <>
inline void std::basic_ios<char>::_M_cache_locale(const std::locale &)
{
    _M_ctype = nullptr;
    _M_num_put = nullptr;
    _M_num_get = nullptr;
}
#endif
#include <ostream>
#include <sstream>
#include <string>
#if defined(SX_SYMBOLIC)
#include <sx_digits.hpp>
#define SX_OV extern "C" __attribute__((used))
struct sx_ios_fields {
    void *vptr;
    char rest[sizeof(std::ios_base) - sizeof(void *)];
};
SX_OV void sxo__ZNSt8ios_baseC2Ev(sx_ios_fields *p)
{
    std::memset(p->rest, 0, sizeof(p->rest));
}
SX_OV void sxo__ZNSt8ios_baseD2Ev(void *) {}
SX_OV void sxo__ZNSt8ios_base7_M_initEv(std::ios_base *p)
{
    struct open : std::ios_base {
        static void go(std::ios_base *q)
        {
            auto *o = static_cast<open *>(q);
            o->_M_precision = 6;
            o->_M_width = 0;
            o->_M_flags = std::ios_base::skipws | std::ios_base::dec;
        }
    };
    open::go(p);
}
SX_OV void sxo__ZNSt6localeC1Ev(void *) {}
SX_OV void sxo__ZNSt6localeC2Ev(void *) {}
SX_OV void sxo__ZNSt6localeD1Ev(void *) {}
SX_OV void sxo__ZNSt6localeD2Ev(void *) {}
template <typename T>
inline std::ostream &sx_put_number(std::ostream &os, T n)
{
    const std::string s = sx_digits(static_cast<__int128>(n));
    return os.write(s.data(), static_cast<std::streamsize>(s.size()));
}
SX_OV std::ostream *sxo__ZNSo9_M_insertIlEERSoT_(std::ostream &os, long n)
{
    return &sx_put_number(os, n);
}
SX_OV std::ostream *sxo__ZNSo9_M_insertIxEERSoT_(std::ostream &os, long long n)
{
    return &sx_put_number(os, n);
}
SX_OV std::ostream *sxo__ZNSo9_M_insertImEERSoT_(std::ostream &os, unsigned long n)
{
    return &sx_put_number(os, n);
}
SX_OV std::ostream *sxo__ZNSo9_M_insertIyEERSoT_(std::ostream &os, unsigned long long n)
{
    return &sx_put_number(os, n);
}
#undef SX_OV
template class std::basic_streambuf<char>;
template class std::__cxx11::basic_stringbuf<char>;
template class std::__cxx11::basic_ostringstream<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template std::ostream &std::__ostream_insert(std::ostream &, const char *, std::streamsize);
#endif
