// Stand-in for mppp::integer: a signed 128-bit integer. Within the bounds of the harnesses no value
// exceeds 127 bits (64-bit exponents, products of two of them, sums of at most 64 of them).
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iostream>
#include <limits>
#include <string>
#include <type_traits>
#include <stdexcept>
#include <mp++/config.hpp>
#if !defined(SX_SYMBOLIC)
#include <fmt/core.h>
#include <fmt/format.h>
#endif

using mp_limb_t = std::uint64_t;

namespace mppp
{
namespace detail
{
template <typename T>
inline constexpr bool is_int_v = std::is_integral_v<T> || std::is_same_v<T, __int128> || std::is_same_v<T, unsigned __int128>;
}

template <std::size_t SSize>
class integer
{
public:
    __int128 v = 0;
    integer() = default;
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>
    integer(const T &n) : v(static_cast<__int128>(n))
    {
    }
    explicit integer(double d) : v(static_cast<__int128>(d)) {}
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>
    integer &operator=(const T &n)
    {
        v = static_cast<__int128>(n);
        return *this;
    }
    template <typename T, std::enable_if_t<detail::is_int_v<T> && !std::is_same_v<T, bool>, int> = 0>
    explicit operator T() const
    {
        if constexpr (sizeof(T) < 16u) {
            if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max())) {
                throw std::overflow_error("mppp::integer conversion overflow");
            }
        }
        return static_cast<T>(v);
    }
    explicit operator double() const { return static_cast<double>(v); }
    explicit operator bool() const { return v != 0; }
    int sgn() const { return v < 0 ? -1 : (v > 0 ? 1 : 0); }
    bool is_zero() const { return v == 0; }
    bool is_one() const { return v == 1; }
    bool is_static() const
    {
        const unsigned __int128 a = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        return SSize > 1u || a <= std::numeric_limits<std::uint64_t>::max();
    }
    std::size_t size() const
    {
        const unsigned __int128 a = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        return a == 0 ? 0u : (a <= std::numeric_limits<std::uint64_t>::max() ? 1u : 2u);
    }
    std::size_t nbits() const
    {
        unsigned __int128 a = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::size_t n = 0;
        for (; a; a >>= 1) {
            ++n;
        }
        return n;
    }
    integer &neg()
    {
        v = -v;
        return *this;
    }
    bool even_p() const { return (v & 1) == 0; }
    bool odd_p() const { return (v & 1) != 0; }
    integer operator-() const
    {
        integer r(*this);
        r.v = -r.v;
        return r;
    }
    integer operator+() const { return *this; }
    integer &operator++()
    {
        ++v;
        return *this;
    }
    std::string to_string() const
    {
        if (v == 0) return "0";
        unsigned __int128 a = v < 0 ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::string s;
        while (a) {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(a % 10u)));
            a /= 10u;
        }
        if (v < 0) s.insert(s.begin(), '-');
        return s;
    }
#define SX_MP_OP(op)                                                                                                   \
    integer &operator op##=(const integer &o)                                                                          \
    {                                                                                                                  \
        v op## = o.v;                                                                                                  \
        return *this;                                                                                                  \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    integer &operator op##=(const T &o)                                                                                \
    {                                                                                                                  \
        v op## = static_cast<__int128>(o);                                                                             \
        return *this;                                                                                                  \
    }                                                                                                                  \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        integer r;                                                                                                     \
        r.v = a.v op b.v;                                                                                              \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    friend integer operator op(const integer &a, const T &b)                                                           \
    {                                                                                                                  \
        integer r;                                                                                                     \
        r.v = a.v op static_cast<__int128>(b);                                                                         \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    friend integer operator op(const T &a, const integer &b)                                                           \
    {                                                                                                                  \
        integer r;                                                                                                     \
        r.v = static_cast<__int128>(a) op b.v;                                                                         \
        return r;                                                                                                      \
    }                                                                                                                  \
    friend double operator op(double a, const integer &b)                                                              \
    {                                                                                                                  \
        return a op static_cast<double>(b.v);                                                                          \
    }
#define SX_MP_OPI(op)                                                                                                  \
    integer &operator op##=(const integer &o)                                                                          \
    {                                                                                                                  \
        v op## = o.v;                                                                                                  \
        return *this;                                                                                                  \
    }                                                                                                                  \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        integer r;                                                                                                     \
        r.v = a.v op b.v;                                                                                              \
        return r;                                                                                                      \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    friend integer operator op(const integer &a, const T &b)                                                           \
    {                                                                                                                  \
        integer r;                                                                                                     \
        r.v = a.v op static_cast<__int128>(b);                                                                         \
        return r;                                                                                                      \
    }
    SX_MP_OP(+)
    SX_MP_OP(-)
    SX_MP_OP(*)
    SX_MP_OP(/)
    SX_MP_OPI(%)
    SX_MP_OPI(>>)
    SX_MP_OPI(<<)
#undef SX_MP_OP
#undef SX_MP_OPI
#define SX_MP_CMP(op)                                                                                                  \
    friend bool operator op(const integer &a, const integer &b)                                                        \
    {                                                                                                                  \
        return a.v op b.v;                                                                                             \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    friend bool operator op(const integer &a, const T &b)                                                              \
    {                                                                                                                  \
        return a.v op static_cast<__int128>(b);                                                                        \
    }                                                                                                                  \
    template <typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>                                              \
    friend bool operator op(const T &a, const integer &b)                                                              \
    {                                                                                                                  \
        return static_cast<__int128>(a) op b.v;                                                                        \
    }
    SX_MP_CMP(==)
    SX_MP_CMP(!=)
    SX_MP_CMP(<)
    SX_MP_CMP(>)
    SX_MP_CMP(<=)
    SX_MP_CMP(>=)
#undef SX_MP_CMP
};

template <std::size_t SSize>
inline std::ostream &operator<<(std::ostream &os, const integer<SSize> &n)
{
    return os << n.to_string();
}

// Safe conversion to a C++ integral: false if not representable.
template <typename T, std::size_t SSize, std::enable_if_t<detail::is_int_v<T>, int> = 0>
inline bool get(T &out, const integer<SSize> &n)
{
    if constexpr (sizeof(T) < 16u) {
        if (n.v < static_cast<__int128>(std::numeric_limits<T>::min()) || n.v > static_cast<__int128>(std::numeric_limits<T>::max())) {
            return false;
        }
    } else if constexpr (std::is_same_v<T, unsigned __int128>) {
        if (n.v < 0) {
            return false;
        }
    }
    out = static_cast<T>(n.v);
    return true;
}

template <std::size_t SSize>
inline integer<SSize> &addmul(integer<SSize> &r, const integer<SSize> &a, const integer<SSize> &b)
{
    r.v += a.v * b.v;
    return r;
}
template <std::size_t SSize>
inline integer<SSize> &neg(integer<SSize> &n)
{
    return n.neg();
}
template <std::size_t SSize>
inline bool is_zero(const integer<SSize> &n)
{
    return n.is_zero();
}
template <std::size_t SSize>
inline bool is_one(const integer<SSize> &n)
{
    return n.is_one();
}
template <std::size_t SSize>
inline integer<SSize> pow(const integer<SSize> &b, const integer<SSize> &e)
{
    integer<SSize> r(1);
    for (integer<SSize> i(0); i < e; ++i) {
        r *= b;
    }
    return r;
}
template <std::size_t SSize, typename T, std::enable_if_t<detail::is_int_v<T>, int> = 0>
inline integer<SSize> pow(const integer<SSize> &b, const T &e)
{
    return pow(b, integer<SSize>(e));
}
template <std::size_t SSize>
inline std::size_t hash(const integer<SSize> &n)
{
    return static_cast<std::size_t>(n.v) ^ static_cast<std::size_t>(n.v >> 64);
}
} // namespace mppp

namespace std
{
template <std::size_t SSize>
struct hash<mppp::integer<SSize>> {
    std::size_t operator()(const mppp::integer<SSize> &n) const { return mppp::hash(n); }
};
} // namespace std

#if !defined(SX_SYMBOLIC)
template <std::size_t SSize>
struct fmt::formatter<mppp::integer<SSize>> : fmt::formatter<std::string> {
    template <typename Ctx>
    auto format(const mppp::integer<SSize> &n, Ctx &ctx) const
    {
        return fmt::formatter<std::string>::format(n.to_string(), ctx);
    }
};
#endif
