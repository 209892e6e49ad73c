// C03: the product of monomials adds exponents; hashes are homomorphic; equality/hash are consistent.
#include "mono.hpp"
#include <obake/hash.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_mul.hpp>

template <typename K>
static void product()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars + 1u));
    const auto ss = sx_symbols(n);
    expos<K> a, b, c;
    const auto [lo, hi] = mono<K>::lims(n);
    for (unsigned i = 0; i < n; ++i) {
        a.push_back(sx_expo<K>(n, "a"));
        c.push_back(sx_expo<K>(n, "c"));
        if constexpr (std::is_signed_v<T>) {
            const auto d = static_cast<wide>(c[i]) - a[i];
            sx_assume(sx_and(d >= lo, d <= hi));
        } else {
            sx_assume(c[i] >= a[i]);
        }
        b.push_back(static_cast<T>(c[i] - a[i]));
    }
    const K ka = sx_raw_key<K>(a), kb = sx_raw_key<K>(b), kc = sx_raw_key<K>(c);
    K out(ss);
    const K ka0(ka), kb0(kb);
    monomial_mul(out, ka, kb, ss);
    sx_check(out == kc, "exponents of a product are the sums of the exponents");
    sx_check(!(out != kc), "operator!= is the negation of operator==");
    sx_check(ka == ka0, "the first factor is unchanged");
    sx_check(kb == kb0, "the second factor is unchanged");
    if (monomial_hash_is_homomorphic<K>) {
        sx_check(::obake::hash(out) == ::obake::hash(ka) + ::obake::hash(kb), "hash(a*b) == hash(a) + hash(b)");
    }
    sx_check(::obake::hash(out) == ::obake::hash(kc), "equal monomials have equal hashes");
    // Aliasing: the output may be one of the factors.
    K al(ka);
    monomial_mul(al, al, kb, ss);
    sx_check(al == kc, "the output may alias the first factor");
    K al2(kb);
    monomial_mul(al2, ka, al2, ss);
    sx_check(al2 == kc, "the output may alias the second factor");
    // The unit.
    K one(ss), prod(ss);
    monomial_mul(prod, ka, one, ss);
    sx_check(prod == ka, "one is the unit of the product");
    // Reuse of an output that holds something else.
    K dirty(kc);
    monomial_mul(dirty, ka, kb, ss);
    sx_check(dirty == kc, "the previous value of the output does not matter");
    sx_reach("product");
}
FOR_MONOS(product)

template <typename K>
static void square()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars + 1u));
    const auto ss = sx_symbols(n);
    const auto [lo, hi] = mono<K>::lims(n);
    expos<K> a, c;
    for (unsigned i = 0; i < n; ++i) {
        a.push_back(sx::sym<T>("a"));
        if constexpr (std::is_signed_v<T>) sx_assume(a[i] >= lo / 2);
        sx_assume(a[i] <= hi / 2);
        c.push_back(static_cast<T>(a[i] * 2));
    }
    K ka = sx_raw_key<K>(a);
    const K kc = sx_raw_key<K>(c);
    monomial_mul(ka, ka, ka, ss);
    sx_check(ka == kc, "squaring in place doubles the exponents");
    sx_reach("square");
}
FOR_MONOS(square)

// Equality is equality of exponents.
template <typename K>
static void equality()
{
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars + 1u));
    const auto a = sx_expos<K>(n, "a"), b = sx_expos<K>(n, "b");
    bool same = true;
    for (unsigned i = 0; i < n; ++i) {
        same = sx_and(same, a[i] == b[i]);
    }
    const K ka = sx_key<K>(a), kb = sx_key<K>(b);
    const bool eq = sx_fork(ka == kb);
    if (eq) {
        sx_check(same, "monomials compare equal only when all exponents agree");
    } else {
        sx_check(!same, "monomials with the same exponents compare equal");
    }
    sx_check((ka != kb) == !eq, "operator!= is the negation of operator==");
    sx_reach("equality");
}
#if defined(SX_THOROUGH)
#define SX_EQ
#endif
HARNESS(equality_dpm_i32_2) { equality<dpm_i32_2>(); }
HARNESS(equality_dpm_u32_3) { equality<dpm_u32_3>(); }
HARNESS(equality_pm_u32) { equality<pm_u32>(); }
HARNESS(equality_pm_i32) { equality<pm_i32>(); }
