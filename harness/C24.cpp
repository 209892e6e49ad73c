// Power series: every operation gives the truncation of the exact result and keeps or combines the truncation settings.
#include "poly.hpp"
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/power_series/power_series.hpp>

#if defined(SX_SYMBOLIC)
// The hash tables of the cache of powers have one bucket.
struct sx_bi {
    bool b;
    std::size_t n;
};
extern "C" __attribute__((used)) sx_bi
sxo__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, std::size_t, std::size_t, std::size_t)
{
    return {false, 0};
}
extern "C" __attribute__((used)) std::size_t sxo__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, std::size_t)
{
    return 1;
}
#endif

namespace tst
{
inline z8 diff(const z8 &, const std::string &) { return z8(0); }
template <typename U>
inline zw<U> operator*(const zw<U> &a, const int &b)
{
    zw<U> r;
    r.v = static_cast<U>(static_cast<unsigned>(a.v) * static_cast<unsigned>(b));
    return r;
}
inline z8 operator/(const z8 &a, const int &b)
{
    z8 r;
    r.v = static_cast<std::uint8_t>((a.v >> (b & 3)) & ~static_cast<unsigned>(b));
    return r;
}
inline std::pair<int, tk> monomial_diff(const tk &k, const symbol_idx &i, const symbol_set &)
{
    std::pair<int, tk> r{k.e[i], k};
    r.second.e[i] = sx::ite<std::int8_t>(k.e[i] == 0, 0, static_cast<std::int8_t>(k.e[i] - 1));
    return r;
}
inline std::pair<int, tk> monomial_integrate(const tk &k, const symbol_idx &i, const symbol_set &)
{
    std::pair<int, tk> r{k.e[i] + 1, k};
    r.second.e[i] = static_cast<std::int8_t>(k.e[i] + 1);
    return r;
}
inline z8 pow(const z8 &c, const long &) { return c; }
// Exponents of type int: the monomials have powers, too.
inline z8 pow(const z8 &c, const int &e) { return z8(static_cast<std::uint8_t>(c.v + 3 * e)); }
template <typename I, std::enable_if_t<std::is_same_v<I, int>, int> = 0>
inline tk monomial_pow(const tk &k, const I &e, const symbol_set &ss)
{
    tk r;
    for (unsigned i = 0; i < ss.size(); ++i) {
        r.e[i] = static_cast<std::int8_t>(k.e[i] * e);
    }
    return r;
}
inline void key_trim_identify(std::vector<int> &v, const tk &k, const symbol_set &ss)
{
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (k.e[i] != 0) {
            v[i] = 0;
        }
    }
}
inline tk key_trim(const tk &k, const symbol_idx_set &si, const symbol_set &ss)
{
    tk r;
    unsigned j = 0;
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (si.find(i) == si.end()) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}
inline z8 trim(const z8 &c) { return c; }
} // namespace tst

using ps8 = p_series<tk, z8>;
using ps16 = p_series<tk, z16>;

// ------------------------------------------------------------------------- truncation settings
struct spec {
    int kind = 0; // none, total degree, partial degree
    int limit = 0;
    const char *s = "";
};
static int deg(const tk &k, const char *ss, const spec &t)
{
    int r = 0;
    for (unsigned i = 0; ss[i]; ++i) {
        bool in = t.kind == 1;
        for (const char *p = t.s; t.kind == 2 && *p; ++p) {
            in = in || *p == ss[i];
        }
        r += in ? k.e[i] : 0;
    }
    return r;
}
static bool kept(const tk &k, const char *ss, const spec &t)
{
    return t.kind == 0 ? true : deg(k, ss, t) <= t.limit;
}
static model truncated(model m, const char *ss, const spec &t)
{
    for (auto &w : m) {
        w.c = sx::ite<std::uint32_t>(kept(w.k, ss, t), w.c, 0u);
    }
    return m;
}
template <typename P>
static void set_tag(P &p, const spec &t)
{
    using trunc = power_series::detail::trunc_t<int>;
    if (t.kind == 1) {
        p.tag().trunc = trunc(t.limit);
    } else if (t.kind == 2) {
        p.tag().trunc = trunc(std::pair{t.limit, sx_ss(t.s)});
    } else {
        p.tag().trunc = trunc();
    }
}
template <typename P>
static void check_tag(const P &p, const spec &t)
{
    const auto &v = get_truncation(p);
    sx_check(static_cast<int>(v.index()) == t.kind, "kind of truncation");
    if (t.kind == 1 && v.index() == 1u) {
        sx_check(std::get<1>(v) == t.limit, "limit");
    }
    if (t.kind == 2 && v.index() == 2u) {
        sx_check(std::get<2>(v).first == t.limit, "limit");
        sx_check(std::get<2>(v).second == sx_ss(t.s), "symbols of the truncation");
    }
}
static spec sx_spec(int kind, const char *s)
{
    spec t;
    t.kind = kind;
    if (kind) {
        t.limit = sx::sym<std::int16_t>("limit");
    }
    if (kind == 2) {
        t.s = s;
    }
    return t;
}
template <typename P>
static P sx_ps(model &m, unsigned n, const char *ss, const spec &t, unsigned seg = 0)
{
    P p = sx_series<P>(m, n, ss, seg);
    for (const auto &w : m) {
        sx_assume(kept(w.k, ss, t));
    }
    set_tag(p, t);
    return p;
}
template <typename P>
static void verify(const P &p, const model &m, const char *ss, const spec &t)
{
    sx_verify(p, truncated(m, ss, t), ss);
    check_tag(p, t);
}

// ------------------------------------------------------------------------- setting the truncation
template <typename D>
static void set(const char *ss, unsigned n, unsigned seg)
{
    model m;
    const auto old = sx_spec(static_cast<int>(sx_choose("old", 3)), "b");
    auto p = sx_ps<ps8>(m, n, ss, old, seg);
    spec t;
    t.kind = static_cast<int>(sx_choose("new", 3));
    if (t.kind == 0) {
        sx_check(&unset_truncation(p) == &p, "returns the series");
    } else {
        const D d = sx::sym<D>("d");
        t.limit = static_cast<int>(d);
        const bool fit = sizeof(D) < 4u || (std::is_signed_v<D> ? sx_and(static_cast<long long>(d) >= -0x80000000LL, static_cast<long long>(d) <= 0x7fffffffLL) : static_cast<unsigned long long>(d) <= 0x7fffffffu);
        t.s = t.kind == 2 ? (sx_choose("which", 2) ? "az" : "") : "";
        bool ok = true;
        try {
            const auto &r = t.kind == 1 ? set_truncation(p, d) : set_truncation(p, d, sx_ss(t.s));
            sx_check(&r == &p, "returns the series");
        } catch (const safe_cast_failure &) {
            ok = false;
        }
        sx_check(ok == fit, "refused only if the limit is not representable");
        if (!ok) {
            verify(p, m, ss, old);
            return;
        }
    }
    verify(p, m, ss, t);
    // Again: nothing changes.
    obake::truncate(p);
    verify(p, m, ss, t);
    sx_check(p.get_s_size() == seg, "segmentation");
    sx_reach("end");
}
HARNESS(set) { set<int>("ab", static_cast<unsigned>(sx_choose("n", 3)), 0); }
HARNESS(set_long) { set<long>("b", 1, 0); }
HARNESS(set_unsigned) { set<unsigned>("a", 1, 0); }
HARNESS(set_short_seg) { set<short>("a", 2, 1); }

// ------------------------------------------------------------------------- sums, differences, products
// The settings of two operands, and of the result.
static bool combine(const spec &a, const spec &b, spec &r)
{
    if (!a.kind || !b.kind) {
        r = a.kind ? a : b;
        return true;
    }
    r = a;
    return a.kind == b.kind && std::string(a.s) == b.s ? a.limit == b.limit : false;
}
static const char *const sets[][3] = {{"a", "a", "a"}, {"ab", "b", "ab"}, {"a", "b", "ab"}, {"b", "ab", "ab"}, {"ac", "bc", "abc"}};

template <typename P, typename Q, bool Add>
static void addsub(unsigned nx, unsigned ny, unsigned nsets, bool in_place)
{
    model mx, my;
    const auto &s = sets[sx_choose("set", nsets)];
    const spec tx = sx_spec(static_cast<int>(sx_choose("tx", 3)), "a"),
               ty = sx_spec(static_cast<int>(sx_choose("ty", 3)), sx_choose("other symbols", 2) ? "b" : "a");
    const auto x = sx_ps<P>(mx, nx, s[0], tx);
    const auto y = sx_ps<Q>(my, ny, s[1], ty);
    const auto ex = extend(mx, s[0], s[2]), ey = extend(my, s[1], s[2]);
    const auto want = Add ? ex + ey : ex - ey;
    spec t;
    const bool ok = combine(tx, ty, t);
    bool done = true;
    const auto cat = in_place ? 2 * sx_choose("move", 2) : sx_choose("move", 4);
    P x2(x);
    Q y2(y);
    try {
        if (in_place) {
            if constexpr (Add) {
                const auto &r = cat ? x2 += std::move(y2) : x2 += y2;
                sx_check(&r == &x2, "returns the first operand");
            } else {
                const auto &r = cat ? x2 -= std::move(y2) : x2 -= y2;
                sx_check(&r == &x2, "returns the first operand");
            }
            verify(x2, want, s[2], t);
        } else if constexpr (Add) {
            const auto r = cat == 0 ? x2 + y2 : cat == 1 ? std::move(x2) + y2 : cat == 2 ? x2 + std::move(y2) : std::move(x2) + std::move(y2);
            verify(r, want, s[2], t);
        } else {
            const auto r = cat == 0 ? x2 - y2 : cat == 1 ? std::move(x2) - y2 : cat == 2 ? x2 - std::move(y2) : std::move(x2) - std::move(y2);
            verify(r, want, s[2], t);
        }
    } catch (const std::invalid_argument &) {
        done = false;
    }
    sx_check(done == ok, "refused only if the truncations do not match");
    if (!ok || (!in_place && (cat & 1) == 0)) {
        verify(x2, mx, s[0], tx);
    }
    if (!ok || (cat & 2) == 0) {
        verify(y2, my, s[1], ty);
    }
    sx_reach("end");
}
HARNESS(add) { addsub<ps8, ps8, true>(1, 1, 3, false); }
HARNESS(sub) { addsub<ps8, ps8, false>(1, 1, 3, false); }
HARNESS(add_in_place) { addsub<ps8, ps8, true>(1, 1, 5, true); }
HARNESS(sub_in_place) { addsub<ps8, ps8, false>(1, 1, 5, true); }
HARNESS(add_convert) { addsub<ps16, ps8, true>(1, 1, 1, false); }
HARNESS(sub_convert) { addsub<ps8, ps16, false>(1, 1, 1, false); }
HARNESS(add_2) { addsub<ps8, ps8, true>(2, 1, 2, false); }
HARNESS(sub_2) { addsub<ps8, ps8, false>(1, 2, 2, false); }
HARNESS(add_in_place_2) { addsub<ps8, ps8, true>(2, 2, 1, true); }
HARNESS(same_object)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a");
    auto x = sx_ps<ps8>(m, 2, "ab", t);
    switch (sx_choose("op", 4)) {
        case 0:
            verify(x + x, m + m, "ab", t);
            break;
        case 1:
            verify(x - x, m - m, "ab", t);
            break;
        case 2:
            x += x;
            verify(x, m + m, "ab", t);
            break;
        default:
            x -= x;
            verify(x, m - m, "ab", t);
    }
    sx_reach("end");
}
// A constant: removed if the limit is negative.
HARNESS(constants)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a");
    auto x = sx_ps<ps8>(m, static_cast<unsigned>(sx_choose("n", 2)), "ab", t);
    const z8 c = sx_cf<z8>();
    const model mc{{tk{}, c.v}};
    switch (sx_choose("op", 6)) {
        case 0:
            verify(x + c, m + mc, "ab", t);
            break;
        case 1:
            verify(c + x, m + mc, "ab", t);
            break;
        case 2:
            verify(x - c, m - mc, "ab", t);
            break;
        case 3:
            verify(c - x, mc - m, "ab", t);
            break;
        case 4:
            x += c;
            verify(x, m + mc, "ab", t);
            break;
        default:
            x -= c;
            verify(x, m - mc, "ab", t);
    }
    sx_reach("end");
}
HARNESS(scalars)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a");
    auto x = sx_ps<ps8>(m, 2, "a", t);
    z8 c = sx_cf<z8>();
    c.v &= 3u;
    model w(m);
    for (auto &q : w) {
        q.c *= c.v;
    }
    switch (sx_choose("op", 4)) {
        case 0:
            verify(x * c, w, "a", t);
            break;
        case 1:
            verify(c * x, w, "a", t);
            break;
        case 2:
            x *= c;
            verify(x, w, "a", t);
            break;
        default:
            for (unsigned i = 0; i < 2u; ++i) {
                w[i].c = m[i].c >> c.v;
            }
            verify(x / c, w, "a", t);
    }
    sx_reach("end");
}

template <typename P, typename Q>
static void mul(unsigned nx, unsigned ny, unsigned nsets, bool in_place)
{
    model mx, my;
    const auto &s = sets[sx_choose("set", nsets)];
    const spec tx = sx_spec(static_cast<int>(sx_choose("tx", 3)), "a"),
               ty = sx_spec(static_cast<int>(sx_choose("ty", 3)), sx_choose("other symbols", 2) ? "b" : "a");
    auto x = sx_ps<P>(mx, nx, s[0], tx);
    const auto y = sx_ps<Q>(my, ny, s[1], ty);
    for (const auto &w : mx) {
        sx_assume(w.c < 8u);
    }
    for (const auto &w : my) {
        sx_assume(w.c < 8u);
    }
    const auto ex = extend(mx, s[0], s[2]), ey = extend(my, s[1], s[2]);
    sx_assume(all_fit(ex, ey));
    spec t;
    const bool ok = combine(tx, ty, t);
    bool done = true;
    try {
        if (in_place) {
            x *= y;
            verify(x, ex * ey, s[2], t);
        } else {
            verify(x * y, ex * ey, s[2], t);
        }
    } catch (const std::invalid_argument &) {
        done = false;
    }
    sx_check(done == ok, "refused only if the truncations do not match");
    if (!in_place || !ok) {
        verify(x, mx, s[0], tx);
    }
    verify(y, my, s[1], ty);
    sx_reach("end");
}
HARNESS(mul) { mul<ps8, ps8>(1, 1, 5, sx_choose("in place", 2)); }
HARNESS(mul_empty) { mul<ps8, ps8>(0, 1, 2, false); }
HARNESS(mul_convert) { mul<ps8, ps16>(1, 1, 1, false); }
HARNESS(mul_2) { mul<ps8, ps8>(2, 1, 1, false); }
#if defined(SX_THOROUGH)
HARNESS(mul_22) { mul<ps8, ps8>(2, 2, 1, false); }
HARNESS(mul_2_sets) { mul<ps8, ps8>(2, 1, 5, true); }
#endif

// ------------------------------------------------------------------------- powers
// Natural exponents, so that truncating early changes nothing. The same series with two truncations: each power has its own.
HARNESS(pow)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a"), u = sx_spec(static_cast<int>(sx_choose("u", 3)), "b");
    const char *ss = "ab";
    auto x = sx_ps<ps8>(m, 1, ss, t);
    sx_assume(m[0].c < 4u);
    for (const auto &w : m) {
        sx_assume(sx_and(sx_and(w.k.e[0] >= 0, w.k.e[0] <= 60), sx_and(w.k.e[1] >= 0, w.k.e[1] <= 60)));
        sx_assume(kept(w.k, ss, u));
    }
    sx_assume(sx_or(m[0].k.e[0] != 0, m[0].k.e[1] != 0));
    // The square of either, in either order, after the other one.
    auto y = x;
    set_tag(y, u);
    const long e1 = static_cast<long>(sx_choose("e1", 3)), e2 = static_cast<long>(sx_choose("e2", 3));
    const model one{{tk{}, 1u}};
    const auto power = [&](long e) { return e == 0 ? one : e == 1 ? m : m * m; };
    const auto r1 = obake::pow(x, e1);
    verify(r1, power(e1), e1 ? ss : "", t);
    const auto r2 = obake::pow(y, e2);
    verify(r2, power(e2), e2 ? ss : "", u);
    verify(x, m, ss, t);
    sx_reach("end");
}
HARNESS(pow_2)
{
    model m;
    const spec t = sx_spec(1 + static_cast<int>(sx_choose("t", 2)), "a");
    const char *ss = "ab";
    const auto x = sx_ps<ps8>(m, 2, ss, t);
    for (const auto &w : m) {
        sx_assume(sx_and(sx_and(w.k.e[0] >= 0, w.k.e[0] <= 60), sx_and(w.k.e[1] >= 0, w.k.e[1] <= 60)));
        sx_assume(w.c < 4u);
    }
    verify(obake::pow(x, 2l), m * m, ss, t);
    sx_reach("end");
}
// A single term, and exponents for which its monomial has powers.
HARNESS(pow_monomial)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "b");
    const char *ss = "ab";
    const auto x = sx_ps<ps8>(m, 1, ss, t);
    for (int j = 0; j < 2; ++j) {
        sx_assume(sx_and(m[0].k.e[j] >= -30, m[0].k.e[j] <= 30));
    }
    const int e = static_cast<int>(sx_choose("e", 6)) - 2;
    model w = m;
    for (int j = 0; j < 2; ++j) {
        w[0].k.e[j] = static_cast<std::int8_t>(m[0].k.e[j] * e);
    }
    w[0].c = (m[0].c + 3 * static_cast<unsigned>(e)) & 0xffu;
    const auto r = sx_choose("move", 2) ? obake::pow(ps8(x), e) : obake::pow(x, e);
    // A coefficient may be converted to a constant: without symbols, or with the ones of the series.
    verify(r, w, r.get_symbol_set().empty() ? "" : ss, t);
    verify(x, m, ss, t);
    sx_reach("end");
}
HARNESS(pow_constant)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a");
    ps8 x;
    x.set_symbol_set(sx_ss("a"));
    const z8 c = sx_cf<z8>();
    sx_assume(c.v != 0);
    sx_assume(kept(tk{}, "a", t));
    x.add_term(tk{}, c);
    set_tag(x, t);
    verify(obake::pow(x, long(sx_choose("e", 3))), model{{tk{}, c.v}}, "", t);
    sx_reach("end");
}

// ------------------------------------------------------------------------- derivatives and integrals
HARNESS(diff)
{
    const char *ss = sx_choose("present", 2) ? "ab" : "a";
    model m, want;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), sx_choose("which", 2) ? "b" : "a");
    const auto x = sx_ps<ps8>(m, static_cast<unsigned>(sx_choose("n", 3)), ss, t);
    for (const auto &w : m) {
        sx_assume(w.k.e[1] != -128);
        auto k = w.k;
        k.e[1] = static_cast<std::int8_t>(k.e[1] - 1);
        want.push_back({k, ss[1] ? w.c * static_cast<unsigned>(int(w.k.e[1])) : 0u});
    }
    verify(obake::diff(x, "b"), want, ss, t);
    verify(x, m, ss, t);
    sx_reach("end");
}
HARNESS(integrate)
{
    const char *ss = sx_choose("present", 2) ? "ab" : "a";
    model m, want;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), sx_choose("which", 2) ? "b" : "a");
    const auto x = sx_ps<ps8>(m, static_cast<unsigned>(sx_choose("n", 3)), ss, t);
    for (const auto &w : extend(m, ss, "ab")) {
        sx_assume(w.k.e[1] != 127);
        auto k = w.k;
        k.e[1] = static_cast<std::int8_t>(k.e[1] + 1);
        const int b = w.k.e[1] + 1;
        want.push_back({k, ((w.c >> (b & 3)) & ~static_cast<unsigned>(b)) & 0xffu});
    }
    verify(sx_choose("move", 2) ? obake::integrate(ps8(x), "b") : obake::integrate(x, "b"), want, "ab", t);
    verify(x, m, ss, t);
    sx_reach("end");
}

// ------------------------------------------------------------------------- the other operations keep the truncation
HARNESS(keep)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a");
    auto x = sx_ps<ps8>(m, 1, "a", t, static_cast<unsigned>(sx_choose("seg", 2)));
    sx_assume(m[0].k.e[0] != 0);
    switch (sx_choose("op", 9)) {
        case 0:
            verify(ps8(x), m, "a", t);
            break;
        case 1: {
            ps8 y;
            y = std::move(x);
            verify(y, m, "a", t);
            break;
        }
        case 2:
            verify(-x, -m, "a", t);
            break;
        case 3:
            verify(obake::trim(x), m, "a", t);
            break;
        case 4:
            verify(obake::add_symbols(x, sx_ss("z")), m, "az", t);
            break;
        case 5:
            verify(obake::filtered(x, [](const auto &) { return true; }), m, "a", t);
            break;
        case 6: {
            ps8 y;
            obake::swap(x, y);
            verify(y, m, "a", t);
            verify(x, model{}, "", spec{});
            break;
        }
        case 7:
            verify(ps16(x), m, "a", t);
            break;
        default:
            x.clear();
            verify(x, model{}, "", spec{});
    }
    sx_reach("end");
}
// Series with different truncations are different.
HARNESS(compare)
{
    model m;
    const spec t = sx_spec(static_cast<int>(sx_choose("t", 3)), "a"), u = sx_spec(static_cast<int>(sx_choose("u", 3)), sx_choose("which", 2) ? "b" : "a");
    const bool more = sx_choose("more symbols", 2);
    const auto x = sx_ps<ps8>(m, static_cast<unsigned>(sx_choose("n", 2)), "a", t);
    auto y = more ? obake::add_symbols(x, sx_ss("b")) : x;
    set_tag(y, u);
    const bool same = t.kind == u.kind ? sx_and(std::string(t.s) == u.s, t.limit == u.limit) : false;
    sx_check((x == y) == same, "equal only if the truncations are");
    sx_check((y != x) == !same, "different if the truncations are");
    sx_check(sx_or(power_series::hash(x.tag()) == power_series::hash(y.tag()), !same), "equal truncations have equal hashes");
    sx_reach("end");
}

// ------------------------------------------------------------------------- generators
HARNESS(generators)
{
    using k = packed_monomial<std::int64_t>;
    using P = p_series<k, z8>;
    const auto mask = static_cast<unsigned>(sx_choose("mask", 8));
    symbol_set ss;
    for (unsigned i = 0; i < 3u; ++i) {
        if (mask & (1u << i)) {
            ss.insert(ss.end(), std::string(1, static_cast<char>('a' + i)));
        }
    }
    const auto i = sx_choose("first", 3), j = sx_choose("second", 3);
    const std::string a(1, static_cast<char>('a' + i));
    const char b[2] = {static_cast<char>('a' + j), 0};
    const bool ok = (mask & (1u << i)) && (mask & (1u << j));
    const auto kind = sx_choose("kind", 3);
    const auto d = kind ? sx::sym<std::int16_t>("d") : std::int16_t(0);
    const auto ts = sx_ss("b");
    const auto check = [&](const P &p, unsigned which, const symbol_set &want) {
        const bool in = kind == 0 || (kind == 1 ? d >= 1 : d >= (which == 1u ? 1 : 0));
        sx_check(p.get_symbol_set() == want, "symbols");
        sx_check(p.size() == (in ? 1u : 0u), "one term unless truncated");
        if (p.size()) {
            sx_check(p.begin()->second.v == 1u, "coefficient");
            for (std::size_t q = 0; q < want.size(); ++q) {
                sx_check(key_p_degree(p.begin()->first, symbol_idx_set{q}, want) == (want.nth(q)->at(0) == static_cast<char>('a' + which) ? 1 : 0), "exponents");
            }
        }
        const auto &v = get_truncation(p);
        sx_check(v.index() == kind, "kind of truncation");
        if (v.index() == 1u) {
            sx_check(std::get<1>(v) == d, "limit");
        } else if (v.index() == 2u) {
            sx_check(std::get<2>(v).first == d && std::get<2>(v).second == ts, "limit and symbols");
        }
    };
    try {
        const auto r = kind == 0 ? make_p_series<P>(ss, a, b) : kind == 1 ? make_p_series_t<P>(ss, d, a, b) : make_p_series_p<P>(ss, d, ts, a, b);
        sx_check(ok, "names of the set");
        check(r[0], static_cast<unsigned>(i), ss);
        check(r[1], static_cast<unsigned>(j), ss);
    } catch (const std::invalid_argument &) {
        sx_check(!ok, "invalid argument only for a name that is not in the set");
    }
    const auto r = kind == 0 ? make_p_series<P>(a, b) : kind == 1 ? make_p_series_t<P>(d, a, b) : make_p_series_p<P>(d, ts, a, b);
    check(r[0], static_cast<unsigned>(i), symbol_set{a});
    check(r[1], static_cast<unsigned>(j), symbol_set{std::string(b)});
    sx_reach("end");
}
