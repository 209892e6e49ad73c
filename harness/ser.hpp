// Common parts of the harnesses on series: a key and a coefficient type of our own, arbitrary series, a reference model
// (an array of terms) and the check that a series is the canonical representation of what the model says.
#pragma once
#include "sx.hpp"
#include <cstdint>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/series.hpp>
#include <obake/symbols.hpp>

using namespace obake;

#if defined(SX_SYMBOLIC)
#include <tbb/parallel_for.h>
// How the parallel algorithms split their ranges (symbolic execution only).
inline void sx_split(int m) { tbb::sx_detail::sx_split_mode = m; }
#else
inline void sx_split(int) {}
#endif

namespace tst
{
// --------------------------------------------------------------------- operations that may fail
struct fault {
};
#if defined(SX_FAULTS)
inline bool fault_armed = false; // any operation, once
inline void may_throw()
{
    if (fault_armed && sx_choose("fault", 2)) {
        fault_armed = false;
        throw fault{};
    }
}
inline void may_throw_copy() { may_throw(); }
#define SX_MOVED_FROM 0
#else
inline int fault_countdown = -1; // >= 0: the operation on coefficients after that many throws
inline void may_throw()
{
    if (fault_countdown == 0) {
        fault_countdown = -1;
        throw fault{};
    }
    if (fault_countdown > 0) {
        --fault_countdown;
    }
}
inline void may_throw_copy() {}
#define SX_MOVED_FROM 0x5a
#endif

// --------------------------------------------------------------------- keys: up to three 8-bit exponents
struct tk {
    std::int8_t e[3] = {0, 0, 0};
    tk() = default;
    explicit tk(const symbol_set &) {}
#if defined(SX_FAULTS)
    tk(const tk &);
    tk(tk &&) = default;
    tk &operator=(const tk &);
    tk &operator=(tk &&) = default;
#endif
    friend bool operator==(const tk &a, const tk &b)
    {
        return sx_and(sx_and(a.e[0] == b.e[0], a.e[1] == b.e[1]), a.e[2] == b.e[2]);
    }
    friend bool operator!=(const tk &a, const tk &b) { return !(a == b); }
};
#if defined(SX_FAULTS)
inline tk::tk(const tk &o) : e{o.e[0], o.e[1], o.e[2]} { may_throw_copy(); }
inline tk &tk::operator=(const tk &o)
{
    may_throw_copy();
    e[0] = o.e[0];
    e[1] = o.e[1];
    e[2] = o.e[2];
    return *this;
}
#endif
inline std::size_t hash(const tk &k)
{
    // Homomorphic in the exponents.
    return static_cast<std::size_t>(static_cast<std::int64_t>(k.e[0]) + 6 * static_cast<std::int64_t>(k.e[1])
                                    + 3 * static_cast<std::int64_t>(k.e[2]));
}
#if defined(SX_NO_ZERO_KEY)
inline bool key_is_zero(const tk &, const symbol_set &) { return false; }
#else
// The keys whose first exponent is -128 count as zero.
inline bool key_is_zero(const tk &k, const symbol_set &) { return k.e[0] == -128; }
#endif
inline bool key_is_one(const tk &k, const symbol_set &)
{
    return sx_and(sx_and(k.e[0] == 0, k.e[1] == 0), k.e[2] == 0);
}
inline bool key_is_compatible(const tk &k, const symbol_set &ss)
{
    bool r = ss.size() <= 3u;
    for (unsigned i = 0; i < 3u; ++i) {
        r = sx_and(r, sx_or(i < ss.size(), k.e[i] == 0));
    }
    return r;
}
inline tk key_merge_symbols(const tk &k, const symbol_idx_map<symbol_set> &m, const symbol_set &ss)
{
    may_throw_copy();
    tk r;
    unsigned j = 0;
    auto it = m.begin();
    for (unsigned i = 0; i <= ss.size(); ++i) {
        if (it != m.end() && it->first == i) {
            j += static_cast<unsigned>(it->second.size());
            ++it;
        }
        if (i < ss.size()) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}
inline void key_stream_insert(std::ostream &, const tk &, const symbol_set &) {}

template <typename U>
struct zw {
    U v = 0;
    zw() = default;
    zw(int n) : v(static_cast<U>(n)) {}
    zw(const zw &o) : v(o.v) { may_throw_copy(); }
    zw(zw &&o) noexcept : v(o.v) { o.v = SX_MOVED_FROM; }
    template <typename V, std::enable_if_t<!std::is_same_v<U, V>, int> = 0>
    explicit zw(const zw<V> &o) : v(static_cast<U>(o.v))
    {
        may_throw_copy();
    }
    template <typename V, std::enable_if_t<!std::is_same_v<U, V>, int> = 0>
    explicit zw(zw<V> &&o) : v(static_cast<U>(o.v))
    {
        may_throw_copy();
        o.v = SX_MOVED_FROM;
    }
    zw &operator=(const zw &o)
    {
        may_throw_copy();
        v = o.v;
        return *this;
    }
    zw &operator=(zw &&o) noexcept
    {
        if (this != &o) {
            v = o.v;
            o.v = SX_MOVED_FROM;
        }
        return *this;
    }
    zw &operator+=(const zw &o)
    {
        may_throw();
        v = static_cast<U>(v + o.v);
        return *this;
    }
    zw &operator-=(const zw &o)
    {
        may_throw();
        v = static_cast<U>(v - o.v);
        return *this;
    }
    zw &operator+=(zw &&o)
    {
        may_throw();
        const U w = o.v;
        v = static_cast<U>(v + w);
        if (this != &o) {
            o.v = SX_MOVED_FROM;
        }
        return *this;
    }
    zw &operator-=(zw &&o)
    {
        may_throw();
        const U w = o.v;
        v = static_cast<U>(v - w);
        if (this != &o) {
            o.v = SX_MOVED_FROM;
        }
        return *this;
    }
    zw &operator*=(const zw &o)
    {
        may_throw();
        v = static_cast<U>(static_cast<unsigned>(v) * o.v);
        return *this;
    }
    // "Division" by shifting, to have a cheap operation that may give zero.
    zw &operator/=(const zw &o)
    {
        may_throw();
        v = static_cast<U>(v >> (o.v & 7u));
        return *this;
    }
    friend bool operator==(const zw &a, const zw &b) { return a.v == b.v; }
    friend bool operator!=(const zw &a, const zw &b) { return a.v != b.v; }
};
template <typename U, typename V>
using narrow = std::conditional_t<sizeof(U) <= sizeof(V), U, V>;
#define TST_OP(op, expr)                                                                                               \
    template <typename U, typename V>                                                                                  \
    inline zw<narrow<U, V>> operator op(const zw<U> &a, const zw<V> &b)                                                \
    {                                                                                                                  \
        may_throw();                                                                                                   \
        using W = narrow<U, V>;                                                                                        \
        zw<W> r;                                                                                                       \
        const unsigned x = a.v, y = b.v;                                                                               \
        r.v = static_cast<W>(expr);                                                                                    \
        return r;                                                                                                      \
    }
TST_OP(+, x + y)
TST_OP(-, x - y)
TST_OP(*, x *y)
TST_OP(/, x >> (y & 7u))
#undef TST_OP
template <typename U, typename V, std::enable_if_t<!std::is_same_v<U, V>, int> = 0>
inline bool operator==(const zw<U> &a, const zw<V> &b)
{
    return a.v == b.v;
}
template <typename U, typename V, std::enable_if_t<!std::is_same_v<U, V>, int> = 0>
inline bool operator!=(const zw<U> &a, const zw<V> &b)
{
    return a.v != b.v;
}
template <typename U>
inline bool is_zero(const zw<U> &a)
{
    return a.v == 0;
}
template <typename U>
inline void negate(zw<U> &a)
{
    may_throw();
    a.v = static_cast<U>(-a.v);
}
inline std::size_t cf_byte_size = 1; // the alleged size of a coefficient
template <typename U>
inline std::size_t byte_size(const zw<U> &)
{
    return cf_byte_size;
}
template <typename U>
inline std::ostream &operator<<(std::ostream &os, const zw<U> &)
{
    return os;
}
using z8 = zw<std::uint8_t>;
using z16 = zw<std::uint16_t>;

struct stag {
    friend bool operator==(const stag &, const stag &) { return true; }
    friend bool operator!=(const stag &, const stag &) { return false; }
};
} // namespace tst

using tst::tk;
using tst::z8;
using tst::z16;
using s8 = series<tk, z8, tst::stag>;
using s16 = series<tk, z16, tst::stag>;

inline symbol_set sx_ss(const char *names) // one letter per symbol
{
    symbol_set r;
    for (; *names; ++names) {
        r.insert(r.end(), std::string(1, *names));
    }
    return r;
}
// An arbitrary key over n symbols (n <= 3).
inline tk sx_tk(unsigned n)
{
    tk k;
    for (unsigned i = 0; i < n && i < 3u; ++i) {
        k.e[i] = sx::sym<std::int8_t>("e");
    }
    return k;
}
template <typename C>
inline C sx_cf()
{
    C c;
    c.v = sx::sym<decltype(c.v)>("c");
    return c;
}

// ------------------------------------------------------------------------- the model
struct term {
    tk k;
    std::uint32_t c;
};
using model = std::vector<term>;

// What the model says about the coefficient of key p (modulo 2^32).
inline std::uint32_t coef_of(const model &m, const tk &p)
{
    std::uint32_t r = 0;
    for (const auto &t : m) {
        r += sx::ite<std::uint32_t>(t.k == p, t.c, 0u);
    }
    return r;
}
// The model with its keys extended from the symbols of one set to those of another one that includes it.
inline model extend(const model &m, const char *from, const char *to)
{
    model r;
    for (const auto &t : m) {
        term n{{}, t.c};
        unsigned i = 0;
        for (unsigned j = 0; to[j]; ++j) {
            if (from[i] && from[i] == to[j]) {
                n.k.e[j] = t.k.e[i++];
            }
        }
        r.push_back(n);
    }
    return r;
}
inline model operator+(model a, const model &b)
{
    for (const auto &t : b) {
        a.push_back(t);
    }
    return a;
}
inline model operator-(const model &a)
{
    model r(a);
    for (auto &t : r) {
        t.c = 0u - t.c;
    }
    return r;
}
inline model operator-(model a, const model &b) { return std::move(a) + (-b); }

// An arbitrary canonical series of n terms and its model.
template <typename S>
inline S sx_series(model &m, unsigned n, const char *ss, unsigned log2 = 0)
{
    using C = series_cf_t<S>;
    S s;
    s.set_symbol_set(sx_ss(ss));
    s.set_n_segments(log2);
    const auto ns = static_cast<unsigned>(std::char_traits<char>::length(ss));
    for (unsigned i = 0; i < n; ++i) {
        const tk k = sx_tk(ns);
        const C c = sx_cf<C>();
        sx_assume(c.v != 0);
        sx_assume(!tst::key_is_zero(k, s.get_symbol_set()));
        for (const auto &t : m) {
            sx_assume(sx_not(t.k == k));
        }
        m.push_back({k, c.v});
        s.add_term(k, c);
    }
    return s;
}
// Is the series canonical? The terms are added to v.
template <typename S>
inline void sx_canonical(const S &s, std::vector<const typename S::table_type::value_type *> &v)
{
    const auto &tab = s._get_s_table();
    const std::size_t nt = tab.size();
    sx_check(nt == std::size_t(1) << s.get_s_size(), "number of segments");
    for (std::size_t i = 0; i < nt; ++i) {
        for (const auto &t : tab[i]) {
            sx_check((tst::hash(t.first) & (nt - 1u)) == i, "term in the segment of its hash");
            sx_check(key_is_compatible(t.first, s.get_symbol_set()), "compatible key");
            sx_check(!tst::key_is_zero(t.first, s.get_symbol_set()), "no zero key");
            sx_check(t.second.v != 0, "no zero coefficient");
            for (auto p : v) {
                sx_check(sx_not(p->first == t.first), "distinct keys");
            }
            v.push_back(&t);
        }
    }
    sx_check(s.size() == v.size(), "size");
    sx_check(s.empty() == v.empty(), "empty");
}
// Is the series what the model says, and canonical? (keys that count as zero are absent)
template <typename S>
inline void sx_verify(const S &s, const model &m, const char *ss)
{
    using C = series_cf_t<S>;
    using U = decltype(C{}.v);
    sx_check(s.get_symbol_set() == sx_ss(ss), "symbol set");
    std::vector<const typename S::table_type::value_type *> v;
    sx_canonical(s, v);
    const tk p = sx_tk(static_cast<unsigned>(std::char_traits<char>::length(ss)));
    U got = 0;
    for (auto t : v) {
        got = static_cast<U>(got + sx::ite<std::uint32_t>(t->first == p, t->second.v, 0u));
    }
    const auto want = static_cast<U>(coef_of(m, p));
    sx_check(sx_or(tst::key_is_zero(p, s.get_symbol_set()), got == want), "coefficient of every key");
}
