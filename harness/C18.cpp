// Multiplication and division of a series by a coefficient (or by anything of lower rank).
#include "ser.hpp"
#include <limits>

namespace tst
{
// A scalar that is not a coefficient type of the series: small integers.
template <typename U>
inline zw<U> operator*(const zw<U> &a, const int &b)
{
    may_throw();
    zw<U> r;
    r.v = static_cast<U>(static_cast<unsigned>(a.v) * static_cast<unsigned>(b));
    return r;
}
template <typename U>
inline zw<U> operator*(const int &b, const zw<U> &a)
{
    return a * b;
}
} // namespace tst

template <typename F>
static model map(const model &m, F f)
{
    model r(m);
    for (auto &t : r) {
        t.c = f(t.c);
    }
    return r;
}
template <typename S, typename C>
static void times()
{
    using U = decltype(series_cf_t<S>{}.v);
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    S x = sx_series<S>(m, n, "ab", l);
    const C c = sx_cf<C>();
    const model w = map(m, [&](std::uint32_t v) { return static_cast<std::uint32_t>(static_cast<U>(v * c.v)); });
    switch (sx_choose("how", 8)) {
        case 0: sx_verify(x * c, w, "ab"); break;
        case 1: sx_verify(c * x, w, "ab"); break;
        case 2: sx_verify(std::move(x) * c, w, "ab"); return;
        case 3: sx_verify(C(c) * std::move(x), w, "ab"); return;
        case 4: sx_verify(x * C(c), w, "ab"); break;
        case 5: sx_verify(C(c) * x, w, "ab"); break;
        case 6: {
            if constexpr (std::is_same_v<C, series_cf_t<S>>) {
                auto &r = (x *= c);
                sx_check(&r == &x, "returns its left operand");
                m = w;
            }
            break;
        }
        default: {
            if constexpr (std::is_same_v<C, series_cf_t<S>>) {
                x *= C(c);
                m = w;
            }
        }
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}
HARNESS(mul_z8) { times<s8, z8>(); }
// Coefficients of a built-in type: two that are not zero may give zero.
template <typename C>
static void times_builtin()
{
    using S = series<tk, C, tst::stag>;
    const unsigned n = 1u + static_cast<unsigned>(sx_choose("n", 2));
    tk k[2];
    C c[2];
    S x;
    x.set_symbol_set(sx_ss("ab"));
    x.set_n_segments(static_cast<unsigned>(sx_choose("seg", 2)));
    for (unsigned i = 0; i < n; ++i) {
        k[i] = sx_tk(2);
        sx_assume(k[i].e[0] != -128);
        c[i] = sx::sym<C>("c");
        sx_assume(c[i] != 0);
    }
    if (n == 2u) {
        sx_assume(sx_or(k[0].e[0] != k[1].e[0], k[0].e[1] != k[1].e[1]));
    }
    for (unsigned i = 0; i < n; ++i) {
        x.add_term(k[i], c[i]);
    }
    // A few scalars: the product of two symbolic words is out of reach of the solver.
    constexpr unsigned w = std::numeric_limits<C>::digits;
    const C scalars[] = {C(0), C(1), C(1) << (w - 1u), C(1) << (w / 2u), C(6), static_cast<C>(-1)};
    const C a = scalars[sx_choose("a", 6)];
    const auto check = [&](const S &r) {
        std::size_t expected = 0;
        for (unsigned i = 0; i < n; ++i) {
            const C w = static_cast<C>(c[i] * a);
            expected += w != 0;
        }
        sx_check(r.size() == expected, "number of terms");
        for (const auto &t : r) {
            sx_check(t.second != 0, "no zero coefficient");
            bool found = false;
            for (unsigned i = 0; i < n; ++i) {
                found = sx_or(found, sx_and(sx_and(t.first.e[0] == k[i].e[0], t.first.e[1] == k[i].e[1]),
                                            t.second == static_cast<C>(c[i] * a)));
            }
            sx_check(found, "coefficient of every key");
        }
        sx_check(r.get_symbol_set() == sx_ss("ab"), "symbol set");
    };
    switch (sx_choose("how", 4)) {
        case 0: check(x * a); break;
        case 1: check(a * x); break;
        case 2: check(std::move(x) * a); break;
        default: x *= a; check(x);
    }
    sx_reach("end");
}
HARNESS(mul_u32) { times_builtin<std::uint32_t>(); }
HARNESS(mul_u64) { times_builtin<std::uint64_t>(); }

// A scalar of a type that is neither.
HARNESS(mul_int)
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    s8 x = sx_series<s8>(m, n, "ab", l);
    const int c = static_cast<int>(sx::sym<std::int8_t>("c"));
    const model w = map(m, [&](std::uint32_t v) { return (v * static_cast<unsigned>(c)) & 0xffu; });
    switch (sx_choose("how", 4)) {
        case 0: sx_verify(x * c, w, "ab"); break;
        case 1: sx_verify(c * x, w, "ab"); break;
        case 2: x *= c; m = w; break;
        default: sx_verify(std::move(x) * int(c), w, "ab"); return;
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}

HARNESS(div)
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 3));
    s8 x = sx_series<s8>(m, n, "ab", l);
    const z8 c = sx_cf<z8>();
    const model w = map(m, [&](std::uint32_t v) { return v >> (c.v & 7u); });
    switch (sx_choose("how", 6)) {
        case 0: sx_verify(x / c, w, "ab"); break;
        case 1: sx_verify(std::move(x) / c, w, "ab"); return;
        case 2: sx_verify(x / z8(c), w, "ab"); break;
        case 3: sx_verify(std::move(x) / z8(c), w, "ab"); return;
        case 4: {
            auto &r = (x /= c);
            sx_check(&r == &x, "returns its left operand");
            m = w;
            break;
        }
        default: x /= z8(c); m = w;
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}
// More terms of one table vanish at once.
HARNESS(many_vanish)
{
    model m;
    s8 x = sx_series<s8>(m, 3, "ab", static_cast<unsigned>(sx_choose("seg", 2)));
    const z8 c = sx_cf<z8>();
    if (sx_choose("how", 2) == 0) {
        const model w = map(m, [&](std::uint32_t v) { return v >> (c.v & 7u); });
        x /= c;
        sx_verify(x, w, "ab");
    } else {
        const model w = map(m, [&](std::uint32_t v) { return (v * c.v) & 0xffu; });
        x *= c;
        sx_verify(x, w, "ab");
    }
    sx_reach("end");
}
// The scalar is one of the coefficients.
HARNESS(aliased)
{
    model m;
    s8 x = sx_series<s8>(m, 2, "ab", static_cast<unsigned>(sx_choose("seg", 2)));
    const auto &c = x.begin()->second;
    const std::uint32_t cv = c.v;
    switch (sx_choose("how", 4)) {
        case 0: {
            const model w = map(m, [&](std::uint32_t v) { return (v * cv) & 0xffu; });
            x *= c;
            m = w;
            break;
        }
        case 1: {
            const model w = map(m, [&](std::uint32_t v) { return v >> (cv & 7u); });
            x /= c;
            m = w;
            break;
        }
        case 2: {
            const model w = map(m, [&](std::uint32_t v) { return (v * cv) & 0xffu; });
            sx_verify(c * x, w, "ab");
            break;
        }
        default: {
            const model w = map(m, [&](std::uint32_t v) { return v >> (cv & 7u); });
            sx_verify(x / c, w, "ab");
        }
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}

// Tags follow the series.
namespace tst
{
struct vtag {
    std::uint8_t v = 0;
};
} // namespace tst
HARNESS(tags)
{
    using sv = series<tk, z8, tst::vtag>;
    model m;
    sv x = sx_series<sv>(m, static_cast<unsigned>(sx_choose("n", 2)), "ab");
    const auto tag = sx::sym<std::uint8_t>("tag");
    x.tag().v = tag;
    const z8 c = sx_cf<z8>();
    switch (sx_choose("how", 5)) {
        case 0: sx_check((x * c).tag().v == tag, "tag of a product"); break;
        case 1: sx_check((c * x).tag().v == tag, "tag of a product"); break;
        case 2: sx_check((x / c).tag().v == tag, "tag of a quotient"); break;
        case 3: sx_check((-x).tag().v == tag, "tag of a negative"); break;
        default: sx_check((std::move(x) * c).tag().v == tag, "tag of a product"); return;
    }
    sx_check(x.tag().v == tag, "tag of the operand");
    sx_reach("end");
}
