// Powers of series and of polynomials, and the cache of powers.
#include "poly.hpp"
#include <obake/math/pow.hpp>
#include <obake/polynomials/monomial_pow.hpp>

#if defined(SX_SYMBOLIC)
// The hash tables of the cache have one bucket (where the elements are does not depend on their hashes).
struct sx_bi {
    bool b;
    std::size_t n;
};
extern "C" __attribute__((used)) sx_bi
sxo__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, std::size_t, std::size_t, std::size_t)
{
    return {false, 0};
}
extern "C" __attribute__((used)) std::size_t sxo__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, std::size_t)
{
    return 1;
}
#endif

namespace tst
{
// The powers of the coefficients: any function of the coefficient and the exponent.
inline std::uint8_t pw(std::uint32_t v, std::int32_t e)
{
    return static_cast<std::uint8_t>((v + static_cast<std::uint32_t>(e)) & 0x7fu);
}
template <typename I>
constexpr bool is_expo = std::is_same_v<I, int> || std::is_same_v<I, long> || std::is_same_v<I, unsigned char>;
template <typename I, std::enable_if_t<is_expo<I>, int> = 0>
inline z8 pow(const z8 &c, const I &e)
{
    z8 r;
    r.v = pw(c.v, static_cast<std::int32_t>(e));
    return r;
}
template <typename I, std::enable_if_t<is_expo<I>, int> = 0>
inline z8 pow(const z16 &c, const I &e)
{
    z8 r;
    r.v = pw(c.v, static_cast<std::int32_t>(e));
    return r;
}
// The powers of the monomials, for one type of exponents only.
inline std::int8_t kpw(std::int8_t k, int e)
{
    return sx::ite<std::int8_t>(sx_or(e == 0, k == 0), 0, static_cast<std::int8_t>(k + e));
}
template <typename I, std::enable_if_t<std::is_same_v<I, int>, int> = 0>
inline tk monomial_pow(const tk &k, const I &e, const symbol_set &ss)
{
    if (e == 1000) {
        throw std::overflow_error("");
    }
    tk r;
    for (unsigned i = 0; i < ss.size(); ++i) {
        r.e[i] = kpw(k.e[i], e);
    }
    return r;
}
} // namespace tst

// x to the power of n by repeated multiplication.
static model power(const model &m, unsigned n)
{
    model r{{tk{}, 1u}};
    for (unsigned i = 0; i < n; ++i) {
        r = r * m;
    }
    return r;
}
static bool power_fits(const model &m, unsigned n)
{
    model r{{tk{}, 1u}};
    bool f = true;
    for (unsigned i = 0; i < n; ++i) {
        for (const auto &t : r) {
            // Terms that have vanished do not count.
            f = sx_and(f, sx_or((coef_of(r, t.k) & 0xffu) == 0u, all_fit(model{t}, m)));
        }
        r = r * m;
    }
    return f;
}
static bool is_one(const model &m)
{
    return m.size() == 1u && tst::key_is_one(m[0].k, symbol_set{});
}
template <typename S>
static const char *symbols_of(const S &s, const char *ss)
{
    return s.get_symbol_set().empty() ? "" : ss;
}

// A single coefficient: its power, for every exponent.
template <typename P, typename I>
static void single_cf(const char *ss)
{
    model m;
    const P x = [&]() {
        P r;
        r.set_symbol_set(sx_ss(ss));
        if (sx_choose("n", 2)) {
            const auto c = sx_cf<series_cf_t<P>>();
            sx_assume(c.v != 0);
            m.push_back({tk{}, c.v});
            r.add_term(tk{}, c);
        }
        return r;
    }();
    const I e = sx::sym<I>("e");
    sx_assume(e != 1000);
    const auto r = sx_choose("move", 2) ? obake::pow(P(x), I(e)) : obake::pow(x, e);
    sx_verify(r, model{{tk{}, tst::pw(m.empty() ? 0u : m[0].c, static_cast<std::int32_t>(e))}}, symbols_of(r, ss));
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(single_cf_series) { single_cf<s8, int>("ab"); }
HARNESS(single_cf_series_long) { single_cf<s8, long>(""); }
HARNESS(single_cf_convert) { single_cf<s16, int>("ab"); }
HARNESS(single_cf_poly) { single_cf<p8, long>("a"); }
HARNESS(single_cf_poly_monomial) { single_cf<p8, int>("a"); }
HARNESS(single_cf_poly_convert) { single_cf<p16, long>("ab"); }

// Series without multiplication: the exponent zero only.
template <typename P, typename I>
static void no_mul(const char *ss)
{
    model m;
    const P x = sx_series<P>(m, 1u + static_cast<unsigned>(sx_choose("n", 2)), ss, static_cast<unsigned>(sx_choose("seg", 2)));
    sx_assume(!is_one(m));
    const I e = sx::sym<I>("e");
    try {
        const auto r = obake::pow(x, e);
        sx_check(e == 0, "exponent");
        sx_verify(r, model{{tk{}, 1u}}, symbols_of(r, ss));
    } catch (const std::invalid_argument &) {
        sx_check(e != 0, "invalid argument only if the exponent is not zero");
    }
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(no_mul_series) { no_mul<s8, int>("ab"); }
HARNESS(no_mul_convert) { no_mul<s16, long>("a"); }
HARNESS(no_mul_poly_convert) { no_mul<p16, long>("a"); }

// Polynomials with a single term and an exponent for which monomials have powers.
template <typename P>
static void monomial(const char *ss)
{
    model m;
    const P x = sx_series<P>(m, 1, ss, static_cast<unsigned>(sx_choose("seg", 2)));
    const int e = sx::sym<int>("e");
    sx_assume(sx_and(e >= -1000, e <= 1000));
    try {
        const auto r = sx_choose("move", 2) ? obake::pow(P(x), int(e)) : obake::pow(x, e);
        sx_check(e != 1000, "no overflow");
        tk k;
        for (unsigned i = 0; ss[i]; ++i) {
            k.e[i] = tst::kpw(m[0].k.e[i], e);
        }
        sx_verify(r, model{{k, tst::pw(m[0].c, e)}}, ss);
    } catch (const std::overflow_error &) {
        sx_check(e == 1000, "overflow error only from the monomial");
    }
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(monomial) { monomial<p8>("ab"); }
HARNESS(monomial_convert) { monomial<p16>("abc"); }

// Polynomials by repeated multiplication.
template <typename I>
static void repeated(const char *ss, unsigned n, unsigned seg, int emax)
{
    model m;
    p8 x = sx_series<p8>(m, n, ss, seg);
    sx_assume(!is_one(m));
    const I e = sx::sym<I>("e");
    sx_assume(e <= emax);
    const bool move = sx_choose("move", 2);
    try {
        const auto r = move ? obake::pow(std::move(x), I(e)) : obake::pow(x, e);
        sx_check(e >= 0, "the exponent is a natural number");
        sx_check(power_fits(m, static_cast<unsigned>(e)), "no overflow");
        sx_verify(r, power(m, static_cast<unsigned>(e)), symbols_of(r, ss));
    } catch (const std::invalid_argument &) {
        sx_check(e < 0, "invalid argument only if the exponent is negative");
    } catch (const std::overflow_error &) {
        // The powers up to the one requested are computed on the way.
        sx_check(sx_and(e >= 2, sx_not(power_fits(m, static_cast<unsigned>(e)))), "overflow error only if a product overflows");
    }
    if (!move) {
        sx_verify(x, m, ss);
    }
    sx_reach("end");
}
HARNESS(repeated_1) { repeated<long>("ab", 1, 0, 3); }
HARNESS(repeated_1_byte) { repeated<unsigned char>("ab", 1, 1, 3); }
HARNESS(repeated_2) { repeated<int>("a", 2, 0, 2); }
HARNESS(repeated_2_long) { repeated<long>("a", 2, 0, 2); }
HARNESS(repeated_2_seg) { repeated<int>("a", 2, 1, 2); }
HARNESS(repeated_2_cube) { repeated<int>("a", 2, 0, 3); }
#if defined(SX_THOROUGH)
HARNESS(repeated_2_ab) { repeated<int>("ab", 2, 0, 3); }
HARNESS(repeated_3) { repeated<int>("a", 3, 0, 2); }
#endif

// The cache: whatever was computed before, the powers of a polynomial are its own.
static void check_power(const p8 &x, const model &m, const char *ss, int e)
{
    const auto r = obake::pow(x, long(e));
    sx_verify(r, power(m, static_cast<unsigned>(e)), symbols_of(r, ss));
}
// Two polynomials that may or may not be equal, in an order of exponents of which each prefix, repetition and increase
// occurs.
static void history(const char *s0, unsigned g0, const char *s1, unsigned g1, bool clear)
{
    model m[2];
    const p8 x = sx_series<p8>(m[0], 1, s0, g0), y = sx_series<p8>(m[1], 1, s1, g1);
    for (const auto &w : m) {
        sx_assume(!is_one(w));
        sx_assume(power_fits(w, 2));
        sx_assume(w[0].c < 8u);
    }
    const auto h = sx_choose("history", 6);
    static const signed char seqs[6][4] = {{2, 2, 1, 2}, {1, 2, 2, 1}, {2, 1, 2, 2}, {0, 2, 0, 2}, {1, 1, 2, 2}, {2, 0, 0, 1}};
    for (unsigned i = 0; i < 4u; ++i) {
        const unsigned w = i & 1u;
        check_power(w ? y : x, m[w], w ? s1 : s0, seqs[h][i]);
        if (clear && i == 1u) {
            customisation::internal::clear_series_pow_map();
        }
    }
    sx_reach("end");
}
HARNESS(cache) { history("a", 0, "a", 0, false); }
HARNESS(cache_clear) { history("a", 0, "a", 0, true); }
HARNESS(cache_seg) { history("a", 0, "a", 1, false); }
HARNESS(cache_symbols) { history("a", 0, "b", 0, false); }
HARNESS(cache_more_symbols) { history("a", 0, "ab", 0, false); }
// Two terms, the same keys or not, the same coefficients or not.
HARNESS(cache_2)
{
    model m[2];
    const p8 x = sx_series<p8>(m[0], 2, "a", 0), y = sx_series<p8>(m[1], 2, "a", 0);
    for (const auto &w : m) {
        for (const auto &t : w) {
            sx_assume(sx_and(t.k.e[0] >= 0, t.k.e[0] < 4));
            sx_assume(t.c < 4u);
        }
    }
    check_power(x, m[0], "a", 1);
    check_power(y, m[1], "a", 1);
    check_power(y, m[1], "a", 2);
    sx_reach("end");
}
// Polynomials of other types have powers of their own.
HARNESS(cache_types)
{
    model m;
    const p8 x = sx_series<p8>(m, 1, "a");
    sx_assume(!is_one(m));
    sx_assume(power_fits(m, 2));
    pf8 y;
    y.set_symbol_set(sx_ss("a"));
    tst::zf8 c;
    c.v = static_cast<char8_t>(m[0].c);
    y.add_term(m[0].k, c);
    check_power(x, m, "a", 1);
    check_power(x, m, "a", 2);
    sx_reach("end");
}
// A power that fails leaves the cache usable.
HARNESS(cache_failure)
{
    model m;
    const p8 x = sx_series<p8>(m, 1, "a");
    sx_assume(!is_one(m));
    const bool fits = power_fits(m, 3);
    const auto first = 2 + static_cast<long>(sx_choose("first", 2));
    bool failed = false;
    try {
        obake::pow(x, first);
    } catch (const std::overflow_error &) {
        failed = true;
    }
    sx_check(sx_or(!failed, sx_not(fits)), "failure only if a power does not fit");
    check_power(x, m, "a", 1);
    check_power(x, m, "a", 0);
    sx_check(sx_overflows([&]() { (void)obake::pow(x, first); }) == failed, "the same outcome again");
    sx_reach("end");
}
