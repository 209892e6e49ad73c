// Model of the part of {fmt} used by obake. By default the text is cut (error messages and stack traces do not
// matter to the properties); with SX_FMT_REAL the replacement fields "{}" and the escapes "{{", "}}" are honoured.
#pragma once
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <sx_digits.hpp>
#define FMT_VERSION 90100
namespace fmt
{
template <typename T>
struct formatter {
};
struct rt {
    std::string_view s;
};
inline rt runtime(std::string_view s)
{
    return rt{s};
}
namespace detail
{
inline void put(std::string &out, const std::string &x)
{
    out += x;
}
inline void put(std::string &out, const char *x)
{
    out += x;
}
inline void put(std::string &out, std::string_view x)
{
    out += x;
}
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
inline void put(std::string &out, T x)
{
    out += sx_digits(static_cast<__int128>(x));
}
template <typename T, std::enable_if_t<!std::is_integral_v<T> && !std::is_convertible_v<const T &, std::string_view>, int> = 0>
inline void put(std::string &out, const T &x)
{
    if constexpr (requires { static_cast<__int128>(x.v); }) {
        out += sx_digits(x.v);
    } else if constexpr (requires { x.to_string(); }) {
        out += x.to_string();
    } else {
        out += "?";
    }
}
inline void go(std::string &out, std::string_view f)
{
    for (std::size_t i = 0; i < f.size(); ++i) {
        if (f[i] == '{' || f[i] == '}') {
            ++i;
        }
        if (i < f.size()) {
            out += f[i];
        }
    }
}
template <typename T, typename... Args>
inline void go(std::string &out, std::string_view f, const T &x, const Args &...args)
{
    for (std::size_t i = 0; i < f.size(); ++i) {
        if (f[i] == '{' && i + 1u < f.size() && f[i + 1u] == '}') {
            put(out, x);
            go(out, f.substr(i + 2u), args...);
            return;
        }
        if (f[i] == '{' || f[i] == '}') {
            ++i;
        }
        if (i < f.size()) {
            out += f[i];
        }
    }
}
} // namespace detail
#if defined(SX_FMT_REAL)
template <typename... Args>
inline std::string format(rt f, const Args &...args)
{
    std::string r;
    detail::go(r, f.s, args...);
    return r;
}
template <typename... Args>
inline std::string format(std::string_view f, const Args &...args)
{
    return format(rt{f}, args...);
}
#else
template <typename F, typename... Args>
inline std::string format(const F &, const Args &...)
{
    return std::string();
}
#endif
template <typename O, typename F, typename... Args>
inline O format_to(O o, const F &, const Args &...)
{
    return o;
}
} // namespace fmt
