// Common parts of the harnesses on polynomials: the keys of ser.hpp as monomials.
#pragma once
#define SX_NO_ZERO_KEY
#include "ser.hpp"
#include <obake/key/key_degree.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

namespace tst
{
inline void monomial_mul(tk &out, const tk &a, const tk &b, const symbol_set &)
{
    may_throw_copy();
    for (unsigned i = 0; i < 3u; ++i) {
        out.e[i] = static_cast<std::int8_t>(a.e[i] + b.e[i]);
    }
}
// Can all the products be represented?
inline bool fits(const tk &a, const tk &b)
{
    bool r = true;
    for (unsigned i = 0; i < 3u; ++i) {
        const int s = a.e[i] + b.e[i];
        r = sx_and(r, sx_and(s >= -128, s <= 127));
    }
    return r;
}
template <typename R1, typename R2>
inline bool monomial_range_overflow_check(R1 &&r1, R2 &&r2, const symbol_set &)
{
    bool r = true;
    for (const auto &a : r1) {
        for (const auto &b : r2) {
            r = sx_and(r, fits(a, b));
        }
    }
    return r;
}
inline int key_degree(const tk &k, const symbol_set &)
{
    may_throw_copy();
    return k.e[0] + k.e[1] + k.e[2];
}
inline int key_p_degree(const tk &k, const symbol_idx_set &si, const symbol_set &)
{
    may_throw_copy();
    int r = 0;
    for (const auto i : si) {
        r += k.e[i];
    }
    return r;
}
// A coefficient type that has a fused multiply-add.
using zf8 = zw<char8_t>;
inline void fma3(zf8 &r, const zf8 &a, const zf8 &b)
{
    may_throw();
    r.v = static_cast<char8_t>(r.v + static_cast<unsigned>(a.v) * b.v);
}
} // namespace tst
namespace obake::customisation
{
template <>
inline constexpr bool monomial_hash_is_homomorphic<tst::tk> = true;
}

using p8 = polynomial<tk, z8>;
using pf8 = polynomial<tk, tst::zf8>;
using p16 = polynomial<tk, z16>;

// Products of models; the sum of the exponents must be in the range.
inline tk key_prod(const tk &a, const tk &b)
{
    tk r;
    tst::monomial_mul(r, a, b, symbol_set{});
    return r;
}
inline model operator*(const model &a, const model &b)
{
    model r;
    for (const auto &x : a) {
        for (const auto &y : b) {
            r.push_back({key_prod(x.k, y.k), x.c * y.c});
        }
    }
    return r;
}
inline bool all_fit(const model &a, const model &b)
{
    bool r = true;
    for (const auto &x : a) {
        for (const auto &y : b) {
            r = sx_and(r, tst::fits(x.k, y.k));
        }
    }
    return r;
}
// The number of cores that the library believes to have (symbolic execution only).
inline unsigned sx_cores = 1;
#if defined(SX_SYMBOLIC)
extern "C" inline __attribute__((used)) unsigned sxo__ZN5obake6detail2hcEv() { return sx_cores; }
#endif
// The arguments of a function that may fail with an overflow error.
template <typename F>
inline bool sx_overflows(F f)
{
    try {
        f();
    } catch (const std::overflow_error &) {
        return true;
    }
    return false;
}
