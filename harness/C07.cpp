// C07: power, evaluation and substitution of monomials.
#include "mono.hpp"
#include <obake/key/key_evaluate.hpp>
#include <obake/math/pow.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_subs.hpp>

// A value in "logarithms": a product is a sum, a power is a multiplication by the exponent. With a different weight
// for each variable, the result of an evaluation determines which power of which variable went into it.
struct logv {
    std::uint64_t w = 0;
    logv() = default;
    explicit logv(int n) : w(n == 1 ? 0u : 0xdeadu) {}
    logv &operator*=(const logv &o)
    {
        w += o.w;
        return *this;
    }
    bool operator==(const logv &o) const { return w == o.w; }
};
template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
inline logv pow(const logv &b, const T &e)
{
    logv r;
    r.w = b.w * static_cast<std::uint64_t>(e);
    return r;
}
static std::uint64_t weight(unsigned i) { return 1000003ull * (i + 1u) + i * i; }

template <typename K>
static void evaluate()
{
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars + 1u));
    const auto ss = sx_symbols(n);
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e);
    symbol_idx_map<logv> sm;
    std::uint64_t want = 0;
    for (unsigned i = 0; i < n; ++i) {
        logv v;
        v.w = weight(i);
        sm.emplace_hint(sm.end(), i, v);
        want += static_cast<std::uint64_t>(e[i]) * weight(i);
    }
    const auto r = ::obake::key_evaluate(k, sm, ss);
    sx_check(r.w == want, "evaluation multiplies the powers of all the variables");
    sx_reach("evaluate");
}
FOR_MONOS(evaluate)

#if defined(SX_THOROUGH)
#define SUBS_MAX 6
#else
#define SUBS_MAX 4
#endif
template <typename K>
static void subs()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned maxv = SUBS_MAX < mono<K>::max_vars ? SUBS_MAX : mono<K>::max_vars;
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", maxv + 1u));
    const auto ss = sx_symbols(n);
    const unsigned mask = static_cast<unsigned>(sx_choose("mask", 1u << n));
    auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e);
    symbol_idx_map<logv> sm;
    std::uint64_t want = 0;
    for (unsigned i = 0; i < n; ++i) {
        if (!((mask >> i) & 1u)) continue;
        logv v;
        v.w = weight(i);
        sm.emplace_hint(sm.end(), i, v);
        want += static_cast<std::uint64_t>(e[i]) * weight(i);
        e[i] = T(0);
    }
    const auto r = ::obake::monomial_subs(k, sm, ss);
    sx_check(r.first.w == want, "substitution multiplies the powers of the substituted variables");
    sx_check(r.second == sx_key<K>(e), "substituted variables get a zero exponent, the others are kept");
    sx_reach("subs");
}
FOR_MONOS(subs)

template <typename K, typename N>
static void check_pow(const expos<K> &e, const K &k, const symbol_set &ss, const N &nn, wide nw)
{
    using T = typename mono<K>::value_type;
    const unsigned n = static_cast<unsigned>(e.size());
    const auto [lo, hi] = mono<K>::lims(n);
    bool fits = true;
    expos<K> x;
    for (unsigned i = 0; i < n; ++i) {
        const wide p = static_cast<wide>(e[i]) * nw;
        fits = sx_and(fits, sx_and(p >= static_cast<wide>(lo), p <= static_cast<wide>(hi)));
        x.push_back(static_cast<T>(p));
    }
    K out(ss);
    const auto r = sx_outcome([&]() { out = ::obake::monomial_pow(k, nn, ss); });
    if (r == RETURNED) {
        sx_check(fits, "a power with an exponent outside the range is never returned");
        if (sx_fork(fits)) {
            sx_check(out == sx_key<K>(x), "powers multiply the exponents");
        }
    } else {
        sx_check(r == OVERFLOW_ERROR, "the only failure of a power with an integral exponent is an overflow error");
        sx_check(!fits, "a representable power is never refused");
    }
}

// Any monomial, a few exponents.
template <typename K>
static void pow_const()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned maxv = 3 < mono<K>::max_vars ? 3 : mono<K>::max_vars;
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", maxv + 1u));
    const auto ss = sx_symbols(n);
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e);
    const long long ns[] = {0, 1, 2, 3, 10, 1 << 20, -1, -2, -(1 << 20)};
    const long long p = ns[sx_choose("pow", sizeof(ns) / sizeof(ns[0]))];
    switch (sx_choose("type", 2)) {
        case 0: check_pow<K>(e, k, ss, p, p); break;
        default: check_pow<K>(e, k, ss, mppp::integer<1>{p}, p);
    }
    sx_reach("pow_const");
}
FOR_MONOS(pow_const)

// A few monomials, any exponent.
template <typename K>
static void pow_any()
{
    using T = typename mono<K>::value_type;
    const unsigned n = 2;
    const auto ss = sx_symbols(n);
    const auto [lo, hi] = mono<K>::lims(n);
    const T es[] = {T(0), T(1), T(3), hi, lo, T(-1)};
    expos<K> e;
    for (unsigned i = 0; i < n; ++i) {
        e.push_back(es[sx_choose("e", std::is_signed_v<T> ? 6 : 5)]);
    }
    const K k = sx_key<K>(e);
    const auto p = sx::sym<std::int64_t>("pow");
    sx_assume(sx_and(p >= -(1ll << 40), p <= (1ll << 40)));
    check_pow<K>(e, k, ss, p, p);
    sx_reach("pow_any");
}
HARNESS(pow_any_pm_i32) { pow_any<pm_i32>(); }
HARNESS(pow_any_pm_u64) { pow_any<pm_u64>(); }
HARNESS(pow_any_dpm_i32_2) { pow_any<dpm_i32_2>(); }
HARNESS(pow_any_dpm_u32_1) { pow_any<dpm_u32_1>(); }

// A non-integral exponent is refused, whatever the monomial.
template <typename K>
static void pow_frac()
{
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", 3));
    const auto ss = sx_symbols(n);
    const K k = sx_key<K>(sx_expos<K>(n));
    const auto r = sx_outcome([&]() { (void)::obake::monomial_pow(k, mppp::rational<1>{1, 2}, ss); });
    sx_check(r == INVALID_ARGUMENT, "a non-integral exponent is an invalid argument");
    sx_reach("pow_frac");
}
HARNESS(pow_frac_pm_i32) { pow_frac<pm_i32>(); }
HARNESS(pow_frac_dpm_u32_3) { pow_frac<dpm_u32_3>(); }
