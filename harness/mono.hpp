// Common parts of the harnesses on monomials: a monomial type with its number of variables and exponent range.
#pragma once
#include "sx.hpp"
#include <stdexcept>
#include <string>
#include <vector>
#include <obake/kpack.hpp>
#include <obake/symbols.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>

using namespace obake;

template <typename K>
struct mono;
template <typename T>
struct mono<packed_monomial<T>> {
    using value_type = T;
    // number of variables explored: 0 .. max_vars
    static constexpr unsigned max_vars = sizeof(T) == 4 ? 10 : 21;
    static constexpr unsigned hard_max = max_vars;
    static std::pair<T, T> lims(unsigned n)
    {
        return n ? obake::detail::kpack_get_lims<T>(n) : std::pair<T, T>{0, 0};
    }
    static constexpr bool dyn = false;
};
template <typename T, unsigned P>
struct mono<d_packed_monomial<T, P>> {
    using value_type = T;
#if defined(SX_THOROUGH)
    static constexpr unsigned max_vars = P <= 3 ? 3 * P + 2 : 2 * P + 2;
#else
    static constexpr unsigned max_vars = P <= 3 ? 2 * P + 1 : P + 2;
#endif
    static constexpr unsigned hard_max = 1000000;
    static std::pair<T, T> lims(unsigned) { return obake::detail::kpack_get_lims<T>(P); }
    static constexpr bool dyn = true;
};

// x0, x1, ... (already in the order of a symbol set for up to 26 symbols)
inline std::string sx_sym_name(unsigned i) { return std::string(1, static_cast<char>('a' + i)); }
inline symbol_set sx_symbols(unsigned n)
{
    symbol_set ss;
    for (unsigned i = 0; i < n; ++i) {
        ss.insert(ss.end(), sx_sym_name(i));
    }
    return ss;
}

// An arbitrary exponent within the range of the monomial type.
template <typename K>
inline typename mono<K>::value_type sx_expo(unsigned nvars, const char *name = "e")
{
    using T = typename mono<K>::value_type;
    const auto [lo, hi] = mono<K>::lims(nvars);
    const T v = sx::sym<T>(name);
    sx_assume(sx_and(v >= lo, v <= hi));
    return v;
}
template <typename K>
using expos = std::vector<typename mono<K>::value_type>;
template <typename K>
inline expos<K> sx_expos(unsigned nvars, const char *name = "e")
{
    expos<K> r;
    r.reserve(nvars);
    for (unsigned i = 0; i < nvars; ++i) {
        r.push_back(sx_expo<K>(nvars, name));
    }
    return r;
}
// Read the exponents of a key back, with nothing but the unpacker.
template <typename T>
inline std::vector<T> sx_unpack(const packed_monomial<T> &k, unsigned n)
{
    std::vector<T> r;
    kunpacker<T> ku(k.get_value(), n);
    for (unsigned i = 0; i < n; ++i) {
        T x = 0;
        ku >> x;
        r.push_back(x);
    }
    return r;
}
template <typename T, unsigned P>
inline std::vector<T> sx_unpack(const d_packed_monomial<T, P> &k, unsigned n)
{
    std::vector<T> r;
    unsigned i = 0;
    for (const auto &c : k._container()) {
        kunpacker<T> ku(c, P);
        for (unsigned j = 0; j < P && i < n; ++j, ++i) {
            T x = 0;
            ku >> x;
            r.push_back(x);
        }
    }
    return r;
}
template <typename K>
inline K sx_key(const expos<K> &v)
{
    // The widest interface common to the monomial types: iterator and size.
    const K k(v.data(), static_cast<unsigned>(v.size()));
    // Simplification only: what unpacking the key gives is the exponents themselves.
    const auto u = sx_unpack(k, static_cast<unsigned>(v.size()));
    for (unsigned i = 0; i < v.size(); ++i) {
        sx_lemma(static_cast<std::uint64_t>(u[i]), static_cast<std::uint64_t>(v[i]), sizeof(v[i]) * 8u);
    }
    return k;
}
// The same, for a key that nothing will unpack.
template <typename K>
inline K sx_raw_key(const expos<K> &v)
{
    return K(v.data(), static_cast<unsigned>(v.size()));
}
using wide = __int128;

enum outcome_t { RETURNED = 0, OVERFLOW_ERROR, OUT_OF_RANGE, INVALID_ARGUMENT, DOMAIN_ERROR, OTHER };
template <typename F>
inline outcome_t sx_outcome(F f)
{
    try {
        f();
    } catch (const std::overflow_error &) {
        return OVERFLOW_ERROR;
    } catch (const std::out_of_range &) {
        return OUT_OF_RANGE;
    } catch (const std::invalid_argument &) {
        return INVALID_ARGUMENT;
    } catch (const std::domain_error &) {
        return DOMAIN_ERROR;
    } catch (...) {
        return OTHER;
    }
    return RETURNED;
}

// The monomial types every property on monomials is decided for.
using pm_i32 = packed_monomial<std::int32_t>;
using pm_u32 = packed_monomial<std::uint32_t>;
using pm_i64 = packed_monomial<std::int64_t>;
using pm_u64 = packed_monomial<std::uint64_t>;
using dpm_i32_2 = d_packed_monomial<std::int32_t, 2>;
using dpm_u32_3 = d_packed_monomial<std::uint32_t, 3>;
using dpm_u32_1 = d_packed_monomial<std::uint32_t, 1>;
using dpm_i64_1 = d_packed_monomial<std::int64_t, 1>;
using dpm_i64_8 = d_packed_monomial<std::int64_t, 8>;
using dpm_u64_8 = d_packed_monomial<std::uint64_t, 8>;
#define FOR_MONOS(f)                                                                                                   \
    HARNESS(f##_pm_i32) { f<pm_i32>(); }                                                                               \
    HARNESS(f##_pm_u32) { f<pm_u32>(); }                                                                               \
    HARNESS(f##_pm_i64) { f<pm_i64>(); }                                                                               \
    HARNESS(f##_pm_u64) { f<pm_u64>(); }                                                                               \
    FOR_DMONOS(f)
#define FOR_DMONOS(f)                                                                                                  \
    HARNESS(f##_dpm_i32_2) { f<dpm_i32_2>(); }                                                                         \
    HARNESS(f##_dpm_u32_3) { f<dpm_u32_3>(); }                                                                         \
    HARNESS(f##_dpm_u32_1) { f<dpm_u32_1>(); }                                                                         \
    HARNESS(f##_dpm_i64_1) { f<dpm_i64_1>(); }                                                                         \
    HARNESS(f##_dpm_i64_8) { f<dpm_i64_8>(); }                                                                         \
    HARNESS(f##_dpm_u64_8) { f<dpm_u64_8>(); }
