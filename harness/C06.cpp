// C06: derivative and integral of a monomial.
#include "mono.hpp"
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>

template <typename K>
static void diff()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = 1u + static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars));
    const auto ss = sx_symbols(n);
    const unsigned i = static_cast<unsigned>(sx_choose("idx", n));
    const auto [lo, hi] = mono<K>::lims(n);
    (void)hi;
    auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e), k0(k);
    T c = 0;
    K out(ss);
    const auto r = sx_outcome([&]() {
        auto p = ::obake::monomial_diff(k, symbol_idx(i), ss);
        c = p.first;
        out = std::move(p.second);
    });
    sx_check(k == k0, "the argument is unchanged");
    if (r == RETURNED) {
        sx_check(c == e[i], "the coefficient of the derivative is the exponent");
        if (sx_fork(e[i] != T(0))) {
            sx_check(e[i] > lo, "no exponent below the range");
            if (e[i] > lo) e[i] = static_cast<T>(e[i] - 1);
            sx_check(out == sx_raw_key<K>(e), "the derivative lowers exactly one exponent by one");
        } else {
            // The coefficient is zero: any compatible monomial will do.
            sx_check(key_is_compatible(out, ss), "the monomial of a zero derivative is still a monomial");
        }
    } else {
        sx_check(r == OVERFLOW_ERROR, "the only failure of a derivative is an overflow error");
        sx_check(sx_and(e[i] == lo, lo != T(0)), "the derivative overflows only at the lower end of the range");
    }
    sx_reach("diff");
}
FOR_MONOS(diff)

template <typename K>
static void integrate()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = 1u + static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars));
    const auto ss = sx_symbols(n);
    const unsigned i = static_cast<unsigned>(sx_choose("idx", n));
    const auto [lo, hi] = mono<K>::lims(n);
    (void)lo;
    auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e), k0(k);
    T c = 0;
    K out(ss);
    const auto r = sx_outcome([&]() {
        auto p = ::obake::monomial_integrate(k, symbol_idx(i), ss);
        c = p.first;
        out = std::move(p.second);
    });
    sx_check(k == k0, "the argument is unchanged");
    bool log_term = false;
    if constexpr (std::is_signed_v<T>) log_term = e[i] == T(-1);
    if (r == RETURNED) {
        sx_check(!log_term, "x**-1 is never integrated");
        sx_check(e[i] < hi, "no exponent above the range");
        if (e[i] < hi) e[i] = static_cast<T>(e[i] + 1);
        sx_check(c == e[i], "the divisor of the integral is the new exponent");
        sx_check(out == sx_raw_key<K>(e), "the integral raises exactly one exponent by one");
    } else if (r == DOMAIN_ERROR) {
        sx_check(log_term, "a domain error is raised only for x**-1");
    } else {
        sx_check(r == OVERFLOW_ERROR, "the only other failure of an integral is an overflow error");
        sx_check(e[i] == hi, "the integral overflows only at the upper end of the range");
    }
    sx_reach("integrate");
}
FOR_MONOS(integrate)

// Derivative of the integral: back to the start, and the two coefficients agree.
template <typename K>
static void inverse()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = mono<K>::max_vars < 3 ? mono<K>::max_vars : 3;
    const auto ss = sx_symbols(n);
    const unsigned i = static_cast<unsigned>(sx_choose("idx", n));
    const auto [lo, hi] = mono<K>::lims(n);
    (void)lo;
    const auto e = sx_expos<K>(n);
    sx_assume(e[i] < hi);
    if constexpr (std::is_signed_v<T>) sx_assume(e[i] != T(-1));
    const K k = sx_key<K>(e);
    const auto in = ::obake::monomial_integrate(k, symbol_idx(i), ss);
    const auto back = ::obake::monomial_diff(in.second, symbol_idx(i), ss);
    sx_check(back.first == in.first, "d/dx of the integral has the divisor as coefficient");
    sx_check(back.second == k, "d/dx of the integral restores the monomial");
    sx_reach("inverse");
}
FOR_MONOS(inverse)
