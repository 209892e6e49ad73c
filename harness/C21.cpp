// Derivatives, integrals, substitutions and evaluations of polynomials: the sums over the terms of what the monomials
// and the coefficients give, whatever these operations are for monomials (C06) and coefficients.
#include "poly.hpp"
#include <obake/key/key_evaluate.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/subs.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_subs.hpp>

namespace tst
{
// The derivative of a coefficient: any function will do.
inline std::uint8_t deriv_factor = 0;
inline z8 diff(const z8 &c, const std::string &)
{
    z8 r;
    r.v = static_cast<std::uint8_t>(c.v & deriv_factor);
    return r;
}
// Another type for the derivatives of this one.
inline z8 diff(const z16 &c, const std::string &)
{
    z8 r;
    r.v = static_cast<std::uint8_t>(c.v & deriv_factor);
    return r;
}
template <typename U>
inline zw<U> operator*(const zw<U> &a, const int &b)
{
    zw<U> r;
    r.v = static_cast<U>(static_cast<unsigned>(a.v) * static_cast<unsigned>(b));
    return r;
}
template <typename U>
inline zw<U> operator*(const int &b, const zw<U> &a)
{
    return a * b;
}
// Division: any function that may give zero.
inline z8 operator/(const z8 &a, const int &b)
{
    z8 r;
    r.v = static_cast<std::uint8_t>((a.v >> (b & 3)) & ~static_cast<unsigned>(b));
    return r;
}
inline z8 operator/(const z16 &a, const int &b)
{
    z8 r;
    r.v = static_cast<std::uint8_t>((a.v >> (b & 3)) & ~static_cast<unsigned>(b));
    return r;
}
inline std::pair<int, tk> monomial_diff(const tk &k, const symbol_idx &i, const symbol_set &)
{
    std::pair<int, tk> r{k.e[i], k};
    if (k.e[i] == -128) {
        throw std::overflow_error("");
    }
    r.second.e[i] = sx::ite<std::int8_t>(k.e[i] == 0, 0, static_cast<std::int8_t>(k.e[i] - 1));
    return r;
}
inline std::pair<int, tk> monomial_integrate(const tk &k, const symbol_idx &i, const symbol_set &)
{
    if (k.e[i] == 127) {
        throw std::overflow_error("");
    }
    if (k.e[i] == -1) {
        throw std::domain_error("");
    }
    std::pair<int, tk> r{k.e[i] + 1, k};
    r.second.e[i] = static_cast<std::int8_t>(k.e[i] + 1);
    return r;
}
// What a power of a value is: any function that depends on the value, the exponent and the position.
inline std::uint8_t power(unsigned i, std::uint8_t u, std::int8_t e)
{
    return static_cast<std::uint8_t>(((u + i) ^ static_cast<std::uint8_t>(e)) & 3u);
}
inline std::pair<z8, tk> monomial_subs(const tk &k, const symbol_idx_map<z8> &m, const symbol_set &)
{
    std::pair<z8, tk> r{z8(0), k};
    for (const auto &p : m) {
        r.first.v = static_cast<std::uint8_t>(r.first.v + power(static_cast<unsigned>(p.first), p.second.v, k.e[p.first]));
        r.second.e[p.first] = 0;
    }
    return r;
}
inline z8 key_evaluate(const tk &k, const symbol_idx_map<z8> &m, const symbol_set &)
{
    z8 r;
    for (const auto &p : m) {
        r.v = static_cast<std::uint8_t>(r.v + power(static_cast<unsigned>(p.first), p.second.v, k.e[p.first]));
    }
    return r;
}
} // namespace tst

static int index_of(const char *ss, char c)
{
    for (int i = 0; ss[i]; ++i) {
        if (ss[i] == c) {
            return i;
        }
    }
    return -1;
}

// d/db
template <typename P, typename R>
static void t_diff(const char *ss, unsigned n, unsigned seg, bool move)
{
    model m, want;
    P x = sx_series<P>(m, n, ss, seg);
    tst::deriv_factor = sx::sym<std::uint8_t>("d");
    const int i = index_of(ss, 'b');
    bool fit = true;
    for (const auto &t : m) {
        want.push_back({t.k, t.c & tst::deriv_factor});
        if (i >= 0) {
            const auto e = t.k.e[i];
            fit = sx_and(fit, e != -128);
            auto k = t.k;
            k.e[i] = static_cast<std::int8_t>(e - 1);
            want.push_back({k, sx::ite<std::uint32_t>(e == 0, 0u, t.c * static_cast<unsigned>(int(e)))});
        }
    }
    try {
        const auto r = move ? obake::diff(std::move(x), "b") : obake::diff(x, "b");
        sx_check(std::is_same_v<decltype(obake::diff(x, "b")), R>, "type of the derivative");
        sx_check(fit, "no overflow");
        if (n != 0u || std::is_same_v<P, R>) {
            sx_verify(r, want, ss);
        } else {
            sx_check(r.empty(), "derivative of zero");
        }
        if (!move) {
            sx_verify(x, m, ss);
        }
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if the exponent overflows");
    }
    sx_reach("end");
}
HARNESS(diff) { t_diff<p8, p8>("ab", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }
HARNESS(diff_absent) { t_diff<p8, p8>("ac", static_cast<unsigned>(sx_choose("n", 3)), sx_choose("seg", 2), sx_choose("move", 2)); }
HARNESS(diff_seg) { t_diff<p8, p8>("bc", 1, 1, sx_choose("move", 2)); }
HARNESS(diff_general) { t_diff<p16, p8>("ab", static_cast<unsigned>(sx_choose("n", 2)), 0, sx_choose("move", 2)); }
HARNESS(diff_general_absent) { t_diff<p16, p8>("ac", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }
#if defined(SX_THOROUGH)
HARNESS(diff_seg_2) { t_diff<p8, p8>("bc", 2, 1, sx_choose("move", 2)); }
HARNESS(diff_general_2) { t_diff<p16, p8>("b", 2, 0, sx_choose("move", 2)); }
HARNESS(diff_3) { t_diff<p8, p8>("b", 3, 0, sx_choose("move", 2)); }
#endif

// The integral in b
template <typename P, typename R>
static void t_integrate(const char *ss, const char *rs, unsigned n, unsigned seg, bool move)
{
    model m, want;
    P x = sx_series<P>(m, n, ss, seg);
    tst::deriv_factor = sx::sym<std::uint8_t>("d");
    const auto ex = extend(m, ss, rs);
    const int i = index_of(rs, 'b');
    bool fit = true, log = false, constant = true;
    for (const auto &t : ex) {
        const auto e = t.k.e[i];
        fit = sx_and(fit, e != 127);
        log = sx_or(log, e == -1);
        constant = sx_and(constant, (t.c & tst::deriv_factor) == 0u);
        auto k = t.k;
        k.e[i] = static_cast<std::int8_t>(e + 1);
        const int b = e + 1;
        want.push_back({k, ((t.c >> (b & 3)) & ~static_cast<unsigned>(b)) & 0xffu});
    }
    try {
        const auto r = move ? obake::integrate(std::move(x), "b") : obake::integrate(x, "b");
        sx_check(std::is_same_v<decltype(obake::integrate(x, "b")), R>, "type of the integral");
        sx_check(sx_and(fit, sx_and(constant, !log)), "can be integrated");
        if (n != 0u || std::is_same_v<P, R>) {
            sx_verify(r, want, rs);
        } else {
            sx_check(r.empty(), "integral of zero");
        }
        if (!move) {
            sx_verify(x, m, ss);
        }
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if the exponent overflows");
    } catch (const std::domain_error &) {
        sx_check(log, "domain error only if an exponent is -1");
    } catch (const std::invalid_argument &) {
        sx_check(sx_not(constant), "invalid argument only if a coefficient is not constant");
    }
    sx_reach("end");
}
HARNESS(integrate) { t_integrate<p8, p8>("ab", "ab", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }
HARNESS(integrate_absent) { t_integrate<p8, p8>("ac", "abc", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }
HARNESS(integrate_absent_first) { t_integrate<p8, p8>("c", "bc", 1, sx_choose("seg", 2), sx_choose("move", 2)); }
HARNESS(integrate_absent_last) { t_integrate<p8, p8>("a", "ab", 1, sx_choose("seg", 2), sx_choose("move", 2)); }
HARNESS(integrate_seg) { t_integrate<p8, p8>("bc", "bc", 2, 1, sx_choose("move", 2)); }
HARNESS(integrate_general) { t_integrate<p16, p8>("ab", "ab", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }
HARNESS(integrate_general_absent) { t_integrate<p16, p8>("a", "ab", static_cast<unsigned>(sx_choose("n", 3)), 0, sx_choose("move", 2)); }

// Values for some of a, b, c and for a symbol that no polynomial has.
static symbol_map<z8> values(unsigned mask, std::uint8_t *u)
{
    symbol_map<z8> r;
    for (unsigned i = 0; i < 4u; ++i) {
        if (mask & (1u << i)) {
            const z8 c = sx_cf<z8>();
            u[i] = c.v;
            r.insert(r.end(), {std::string(1, i == 3u ? 'z' : static_cast<char>('a' + i)), c});
        }
    }
    return r;
}
static void t_subs(const char *ss, unsigned n, unsigned seg, unsigned masks)
{
    model m, want;
    p8 x = sx_series<p8>(m, n, ss, seg);
    std::uint8_t u[4] = {};
    const auto mask = static_cast<unsigned>(sx_choose("mask", masks));
    const auto v = values(mask, u);
    for (const auto &t : m) {
        auto k = t.k;
        std::uint8_t f = 0;
        for (unsigned i = 0; ss[i]; ++i) {
            const auto j = static_cast<unsigned>(ss[i] - 'a');
            if (mask & (1u << j)) {
                f = static_cast<std::uint8_t>(f + tst::power(i, u[j], k.e[i]));
                k.e[i] = 0;
            }
        }
        want.push_back({k, t.c * f});
    }
    const auto r = obake::subs(x, v);
    if (n != 0u) {
        sx_verify(r, want, ss);
    } else {
        sx_check(r.empty(), "substitution in zero");
    }
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(subs) { t_subs("ab", static_cast<unsigned>(sx_choose("n", 2)), 0, 16); }
HARNESS(subs_2) { t_subs("ac", 2, 0, 8); }
HARNESS(subs_seg) { t_subs("b", 2, 1, 4); }

static void t_evaluate(const char *ss, unsigned n, unsigned seg)
{
    model m;
    const p8 x = sx_series<p8>(m, n, ss, seg);
    std::uint8_t u[4] = {}, want = 0;
    const auto mask = static_cast<unsigned>(sx_choose("mask", 16));
    const auto v = values(mask, u);
    bool all = true;
    for (unsigned i = 0; ss[i]; ++i) {
        all = all && (mask & (1u << (ss[i] - 'a')));
    }
    for (const auto &t : m) {
        std::uint8_t f = 0;
        for (unsigned i = 0; ss[i]; ++i) {
            f = static_cast<std::uint8_t>(f + tst::power(i, u[ss[i] - 'a'], t.k.e[i]));
        }
        want = static_cast<std::uint8_t>(want + t.c * f);
    }
    try {
        const auto r = obake::evaluate(x, v);
        sx_check(all, "all the symbols have a value");
        sx_check(r.v == want, "value");
    } catch (const std::invalid_argument &) {
        sx_check(!all, "invalid argument only if a symbol has no value");
    }
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(evaluate) { t_evaluate("ab", static_cast<unsigned>(sx_choose("n", 3)), 0); }
HARNESS(evaluate_seg) { t_evaluate("ac", static_cast<unsigned>(sx_choose("n", 3)), 1); }
HARNESS(evaluate_constant) { t_evaluate("", static_cast<unsigned>(sx_choose("n", 2)), 0); }
HARNESS(evaluate_3) { t_evaluate("b", 3, 0); }

// Polynomials whose coefficients are polynomials.
HARNESS(nested)
{
    using pp = polynomial<tk, p8>;
    model mc;
    p8 c = sx_series<p8>(mc, 1, "b");
    pp x;
    x.set_symbol_set(sx_ss("a"));
    const tk k = sx_tk(1);
    x.add_term(k, c);
    tst::deriv_factor = 0;
    if (sx_choose("how", 2)) {
        // d/da: of the monomial.
        sx_assume(k.e[0] != -128);
        const auto r = obake::diff(x, "a");
        model w(mc);
        w[0].c *= static_cast<unsigned>(int(k.e[0]));
        if (r.empty()) {
            sx_check((w[0].c & 0xffu) == 0u, "vanishes only if the coefficient does");
        } else {
            sx_check(r.size() == 1u && r.begin()->first.e[0] == k.e[0] - 1, "monomial");
            sx_verify(r.begin()->second, w, "b");
        }
    } else {
        // d/db: of the coefficient.
        sx_assume(mc[0].k.e[0] != -128);
        const auto r = obake::diff(x, "b");
        model w(mc);
        w[0].c *= static_cast<unsigned>(int(w[0].k.e[0]));
        w[0].k.e[0] = static_cast<std::int8_t>(w[0].k.e[0] - 1);
        if (r.empty()) {
            sx_check((w[0].c & 0xffu) == 0u, "vanishes only if the coefficient does");
        } else {
            sx_check(sx_and(r.size() == 1u, r.begin()->first == k), "monomial");
            sx_verify(r.begin()->second, w, "b");
        }
    }
    sx_reach("end");
}
