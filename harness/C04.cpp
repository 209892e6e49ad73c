// C04: the overflow check of a product of two ranges of monomials is exact.
#include "mono.hpp"
#include <forward_list>
#include <obake/polynomials/monomial_range_overflow_check.hpp>

// The specification: no pair of monomials has a product outside the range of the exponents (or, for the dynamic
// monomials, a total degree outside the range of the exponent type).
template <typename K>
static bool fits(const std::vector<expos<K>> &r1, const std::vector<expos<K>> &r2, unsigned n)
{
    using T = typename mono<K>::value_type;
    const auto [lo, hi] = mono<K>::lims(n);
    bool ok = true;
    for (const auto &a : r1) {
        for (const auto &b : r2) {
            wide d = 0;
            for (unsigned i = 0; i < n; ++i) {
                const wide s = static_cast<wide>(a[i]) + b[i];
                ok = sx_and(ok, sx_and(s >= static_cast<wide>(lo), s <= static_cast<wide>(hi)));
                d += s;
            }
            if constexpr (mono<K>::dyn) {
                ok = sx_and(ok, sx_and(d >= static_cast<wide>(std::numeric_limits<T>::min()),
                                       d <= static_cast<wide>(std::numeric_limits<T>::max())));
            }
        }
    }
    return ok;
}
template <typename K>
static std::vector<K> keys(const std::vector<expos<K>> &v)
{
    std::vector<K> r;
    for (const auto &x : v) {
        r.push_back(sx_key<K>(x));
    }
    return r;
}
template <typename K>
static std::vector<expos<K>> range(unsigned sz, unsigned n, const char *nm)
{
    std::vector<expos<K>> r;
    for (unsigned i = 0; i < sz; ++i) {
        r.push_back(sx_expos<K>(n, nm));
    }
    return r;
}

#if defined(SX_THOROUGH)
#define MAXR 3
#define MAXV 3
#else
#define MAXR 2
#define MAXV 2
#endif

template <typename K>
static void exact()
{
    sx_int_mode(true);
    unsigned n = static_cast<unsigned>(sx_choose("nvars", MAXV + 1));
    const unsigned s1 = static_cast<unsigned>(sx_choose("size1", MAXR + 1)),
                   s2 = static_cast<unsigned>(sx_choose("size2", MAXR + 1));
    if (n == MAXV && s1 + s2 > MAXR + 1) sx_assume(false);
    const auto ss = sx_symbols(n);
    const auto e1 = range<K>(s1, n, "a"), e2 = range<K>(s2, n, "b");
    const auto k1 = keys<K>(e1), k2 = keys<K>(e2);
    const bool got = monomial_range_overflow_check(k1, k2, ss);
    sx_check(got == fits<K>(e1, e2, n), "the overflow check answers true exactly when every product is representable");
    sx_reach("exact");
}
FOR_MONOS(exact)

// Other iterator categories (serial path).
template <typename K>
static void forward()
{
    sx_int_mode(true);
    const unsigned n = 1;
    const auto ss = sx_symbols(n);
    const auto e1 = range<K>(2, n, "a"), e2 = range<K>(2, n, "b");
    const auto v1 = keys<K>(e1), v2 = keys<K>(e2);
    std::forward_list<K> k1(v1.begin(), v1.end()), k2(v2.begin(), v2.end());
    const bool got = monomial_range_overflow_check(k1, k2, ss);
    sx_check(got == fits<K>(e1, e2, n), "forward iterators: the overflow check is exact");
    sx_reach("forward");
}
HARNESS(forward_pm_i32) { forward<pm_i32>(); }
HARNESS(forward_pm_u64) { forward<pm_u64>(); }
HARNESS(forward_dpm_i32_2) { forward<dpm_i32_2>(); }
HARNESS(forward_dpm_i64_1) { forward<dpm_i64_1>(); }

// Large ranges take the parallel path: two unusual elements anywhere in either range decide.
template <typename K>
static void parallel(unsigned n, bool same = false)
{
    // same: all the exponents of a monomial are equal (fewer cases, as many variables as the degree needs).
    sx_int_mode(true);
    const unsigned mode = static_cast<unsigned>(sx_choose("split", 4));
#if defined(SX_SYMBOLIC)
    tbb::sx_detail::sx_split_mode = static_cast<int>(mode);
#endif
    const auto ss = sx_symbols(n);
    const bool first = sx_choose("which", 2) == 0;
    const unsigned big = 5001u;
    const unsigned where[][2] = {{0u, big - 1u}, {1u, 2u}, {3000u, 2000u}, {big - 1u, big - 2u}};
    const unsigned w0 = static_cast<unsigned>(sx_choose("where", 4));
    auto mk = [n, same](const char *name) { return same ? expos<K>(n, sx_expo<K>(n, name)) : sx_expos<K>(n, name); };
    const auto odd1 = mk("odd1"), odd2 = mk("odd2"), other = mk("other");
    const K zero = sx_key<K>(expos<K>(n, 0));
    std::vector<K> v(big, zero);
    v[where[w0][0]] = sx_key<K>(odd1);
    v[where[w0][1]] = sx_key<K>(odd2);
    std::vector<K> w(1u, sx_key<K>(other));
    const bool got = first ? monomial_range_overflow_check(v, w, ss) : monomial_range_overflow_check(w, v, ss);
    const std::vector<expos<K>> r1{odd1, odd2, expos<K>(n, 0)}, r2{other};
    sx_check(got == fits<K>(r1, r2, n), "large ranges: the overflow check is exact");
    sx_reach("parallel");
}
HARNESS(parallel_pm_i32) { parallel<pm_i32>(1); }
HARNESS(parallel_pm_u32) { parallel<pm_u32>(1); }
HARNESS(parallel_dpm_i32_2) { parallel<dpm_i32_2>(1); }
HARNESS(parallel_dpm_u32_1) { parallel<dpm_u32_1>(2); }
HARNESS(parallel_dpm_i64_1) { parallel<dpm_i64_1>(1); }
HARNESS(parallel_deg_dpm_i32_1) { parallel<d_packed_monomial<std::int32_t, 1>>(3, true); }
HARNESS(parallel_deg_dpm_u64_1) { parallel<d_packed_monomial<std::uint64_t, 1>>(2, true); }

// Three unbounded-pack variables: the only case in which components fit and degrees of signed exponents do not.
template <typename K>
static void degrees()
{
    sx_int_mode(true);
    const unsigned n = 3;
    const auto ss = sx_symbols(n);
    const unsigned s1 = 1u + static_cast<unsigned>(sx_choose("size1", 2)), s2 = 1u + static_cast<unsigned>(sx_choose("size2", 2));
    auto mk = [](const char *name) {
        // x y**k z**l, with one exponent of each monomial free and the others tied to it.
        const auto e = sx_expo<K>(3, name);
        return expos<K>{e, e, sx_choose("tie", 2) ? e : static_cast<typename mono<K>::value_type>(0)};
    };
    std::vector<expos<K>> e1, e2;
    for (unsigned i = 0; i < s1; ++i) e1.push_back(mk("a"));
    for (unsigned i = 0; i < s2; ++i) e2.push_back(mk("b"));
    const auto k1 = keys<K>(e1), k2 = keys<K>(e2);
    const bool got = monomial_range_overflow_check(k1, k2, ss);
    sx_check(got == fits<K>(e1, e2, n), "degrees: the overflow check is exact");
    sx_reach("degrees");
}
HARNESS(degrees_dpm_i32_1) { degrees<d_packed_monomial<std::int32_t, 1>>(); }
HARNESS(degrees_dpm_i64_1) { degrees<dpm_i64_1>(); }
HARNESS(degrees_dpm_u32_1) { degrees<dpm_u32_1>(); }
