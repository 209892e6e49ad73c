POLY = ['kpack.cpp', 'polynomials/packed_monomial.cpp', 'polynomials/d_packed_monomial.cpp', 'symbols.cpp', 'series.cpp', 'cf/cf_stream_insert.cpp',
        'tex_stream_insert.cpp', 'detail/hc.cpp', 'detail/to_string.cpp', 'detail/fw_utils.cpp', 'detail/atomic_flag_array.cpp']
PH = 'include/obake/polynomials/polynomial.hpp'
SH = 'include/obake/series.hpp'
PRE = r'''
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include <mp++/integer.hpp>
#include <mp++/rational.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/series.hpp>
using namespace obake;
#define REQUIRE(...) do { if (!(__VA_ARGS__)) { std::cerr << "failed: " #__VA_ARGS__ << std::endl; return 1; } } while (0)
'''
SEEDS = [
dict(id='mul-trunc-difference', property='C20', srcs=POLY,
    needs='a degree type without negative values and a factor with a term whose degree alone exceeds the limit',
    breaks='truncated multiplication keeps products beyond the limit because the limit minus the degree of a term wraps',
    edits=[(PH, '''                    // Find the first term in the second series such
                    // that d_i + d_j > max_deg.
                    const auto it = ::std::upper_bound(vd2.cbegin(), vd2.cend(), max_deg,
                                                       [&d_i](const auto &mdeg, const auto &d_j) {
                                                           // NOTE: we require below
                                                           // comparability between const lvalue limit
                                                           // and rvalue of the sum of the degrees.
                                                           return mdeg < d_i + d_j;
                                                       });
''', '''                    // Find the first term in the second series such
                    // that d_i + d_j > max_deg.
                    // NOTE: compute once what is left for the second series,
                    // rather than a sum at every step of the search.
                    const auto left = max_deg - d_i;
                    const auto it = ::std::upper_bound(vd2.cbegin(), vd2.cend(), left,
                                                       [](const auto &l, const auto &d_j) { return l < d_j; });
''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::uint32_t>, double>;
    auto [x, y] = make_polynomials<P>("x", "y");
    const P a = x * x * x * x * x + y, b = x + y + 1;
    const auto r = truncated_mul(a, b, 3u);
    REQUIRE(r == y * x + y * y + y);
    const auto q = truncated_mul(b, a, 3u);
    REQUIRE(q == r);
    const auto s = truncated_mul(a, b, 5u);
    REQUIRE(s == r + x * x * x * x * x);
}
'''),
dict(id='mul-mt-search-exhausted', property='C19', srcs=POLY,
    needs='the multi-threaded algorithm for sparse products, a segment of the result for which the smallest segment of the second factor matches before the segment indices wrap around',
    breaks='products whose hashes wrap around are missing from the result of the multi-threaded multiplication',
    edits=[(PH, '''                      // Unpack in local variables.
                      const auto [r1_start, r1_end, bi1] = r1;

                      // The first time that bi1 is > seg_idx
                      // we have a wrap-around. This means that:''', '''                      if (end_search == vseg2_begin) {
                          // There is nothing left to be found in vseg2
                          // for this segment.
                          break;
                      }

                      // Unpack in local variables.
                      const auto [r1_start, r1_end, bi1] = r1;

                      // The first time that bi1 is > seg_idx
                      // we have a wrap-around. This means that:''')],
    demo=PRE + r'''
// A coefficient that owns a lot of memory, so that products are split in many segments.
struct big {
    std::int64_t v = 0;
    big() = default;
    explicit big(int n) : v(n) {}
    big(const big &) = default;
    big(big &&) = default;
    big &operator=(const big &) = default;
    big &operator=(big &&) = default;
    big &operator+=(const big &o) { v += o.v; return *this; }
    big &operator-=(const big &o) { v -= o.v; return *this; }
    big operator*(const big &o) const { big r; r.v = v * o.v; return r; }
    big operator+(const big &o) const { big r; r.v = v + o.v; return r; }
    big operator-() const { big r; r.v = -v; return r; }
    bool operator==(const big &o) const { return v == o.v; }
    bool operator!=(const big &o) const { return v != o.v; }
};
std::ostream &operator<<(std::ostream &os, const big &b) { return os << b.v; }
bool is_zero(const big &b) { return b.v == 0; }
std::size_t byte_size(const big &) { return 16384; }
int main()
{
    using P = polynomial<packed_monomial<std::int64_t>, big>;
    // Few terms with exponents all over the range, so that hashes are sparse, and the algorithm called directly.
    for (unsigned seed = 1; seed < 4; ++seed) {
        std::mt19937 rng(seed);
        std::uniform_int_distribution<int> e(-1000, 1000), c(1, 9);
        P a, b;
        a.set_symbol_set(symbol_set{"x", "y", "z"});
        b.set_symbol_set(symbol_set{"x", "y", "z"});
        std::map<std::tuple<int, int, int>, std::int64_t> ma, mb, mr;
        for (int i = 0; i < 150; ++i) {
            const std::tuple<int, int, int> ka{e(rng), e(rng), e(rng)}, kb{e(rng), e(rng), e(rng)};
            const int ca = c(rng), cb = c(rng);
            ma[ka] += ca;
            mb[kb] += cb;
            a.add_term(packed_monomial<std::int64_t>{std::get<0>(ka), std::get<1>(ka), std::get<2>(ka)}, big(ca));
            b.add_term(packed_monomial<std::int64_t>{std::get<0>(kb), std::get<1>(kb), std::get<2>(kb)}, big(cb));
        }
        for (const auto &[k, v] : ma)
            for (const auto &[l, w] : mb)
                mr[{std::get<0>(k) + std::get<0>(l), std::get<1>(k) + std::get<1>(l), std::get<2>(k) + std::get<2>(l)}] += v * w;
        P ret;
        ret.set_symbol_set_fw(a.get_symbol_set_fw());
        polynomials::detail::poly_mul_impl_mt_hm(ret, a, b);
        REQUIRE(ret.size() == mr.size());
        for (const auto &[k, v] : mr) {
            const auto it = ret.find(packed_monomial<std::int64_t>{std::get<0>(k), std::get<1>(k), std::get<2>(k)});
            REQUIRE(it != ret.end() && it->second.v == v);
        }
    }
}
'''),
dict(id='add-self-doubling', property='C16', srcs=POLY,
    needs='a series added in place to itself, with a coefficient whose double is zero (2^31 in 32-bit unsigned coefficients)',
    breaks='terms with zero coefficient remain in the sum',
    edits=[(SH, '''                // NOTE: to improve performance, we could
                // implement addition as a scalar multiplication
                // by 2, and subtraction as a clear()ing of
                // x. Keep it in mind for the future.
                if (&x == &y) {
                    in_place_with_identical_ss(x, rU(y));
                } else {''', '''                // NOTE: for the addition, avoid the copy and
                // double the coefficients directly: the keys do not change.
                if (&x == &y) {
                    if constexpr (Sign) {
                        for (auto &t : x) {
                            t.second += series_cf_t<rU>(t.second);
                        }
                    } else {
                        in_place_with_identical_ss(x, rU(y));
                    }
                } else {''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, std::uint32_t>;
    auto [x, y] = make_polynomials<P>("x", "y");
    P a = x + x + x;
    a += y * std::uint32_t(1u << 31);
    const auto three = a;
    a += a;
    REQUIRE(a.size() == 1u);
    REQUIRE(a == x + x + x + x + x + x);
    a -= a;
    REQUIRE(a.empty());
    auto [z] = make_polynomials<P>("z");
    z += z;
    REQUIRE(z.size() == 1u && z.begin()->second == 2u);
}
'''),
dict(id='cmp-same-coefficient-type', property='C17', srcs=POLY,
    needs='two series with different coefficient types whose coefficients differ but agree after conversion to the type of the first',
    breaks='series with different coefficients compare equal, and equality is not symmetric',
    edits=[(SH, '''        if (it == rhs_end || c != it->second) {
            return false;
        }''', '''        // NOTE: the coefficient types may differ, compare
        // in the coefficient type of lhs.
        if (it == rhs_end || c != static_cast<const series_cf_t<T> &>(static_cast<series_cf_t<T>>(it->second))) {
            return false;
        }''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, int>;
    using Q = polynomial<packed_monomial<std::int32_t>, double>;
    auto [x, y] = make_polynomials<P>("x", "y");
    auto [u, v] = make_polynomials<Q>("x", "y");
    const P a = x + y + y;
    const Q b = u + v * 2.5, c = u + v * 2.;
    REQUIRE(!(a == b) && a != b && !(b == a) && b != a);
    REQUIRE(a == c && c == a);
}
'''),
dict(id='mul-scalar-nonzero', property='C18', srcs=POLY,
    needs='built-in coefficients whose product with a nonzero number is zero (wrap-around of unsigned integers, underflow of floating-point numbers)',
    breaks='a product of a series by a number keeps terms with zero coefficient',
    edits=[(SH, '''                    c *= ::std::as_const(b);
                    // Check if the coefficient became zero
                    // after the multiplication.
                    if (obake_unlikely(::obake::is_zero(::std::as_const(c)))) {
                        v_keys.push_back(k);
                    }
                }

                // Erase any term whose coefficient became zero.
                for (const auto &k : v_keys) {
                    assert(t.find(k) != t.end());
                    t.erase(k);
                }
            }

            return retval;''', '''                    c *= ::std::as_const(b);
                    // Check if the coefficient became zero
                    // after the multiplication. We know that neither c nor b
                    // are zero, thus there is nothing to check
                    // for numbers.
                    if constexpr (!::std::is_arithmetic_v<series_cf_t<ret_t>>) {
                        if (obake_unlikely(::obake::is_zero(::std::as_const(c)))) {
                            v_keys.push_back(k);
                        }
                    }
                }

                // Erase any term whose coefficient became zero.
                for (const auto &k : v_keys) {
                    assert(t.find(k) != t.end());
                    t.erase(k);
                }
            }

            return retval;''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, std::uint32_t>;
    auto [x, y] = make_polynomials<P>("x", "y");
    P a = x;
    a += P(y) * std::uint32_t(1u << 16);
    const auto r = a * std::uint32_t(1u << 16);
    REQUIRE(r.size() == 1u);
    using Q = polynomial<packed_monomial<std::int32_t>, double>;
    auto [u] = make_polynomials<Q>("u");
    const auto q = (u * 1e-200) * 1e-200;
    REQUIRE(q.empty());
}
'''),
dict(id='extend-by-tables', property='C15', srcs=POLY,
    needs='a segmented series extended by a symbol that precedes one of its symbols',
    breaks='terms end up in a segment that is not the one of their hash: lookups fail and terms are duplicated',
    edits=[(SH, '''        for (auto &t : from._get_s_table()) {
            for (auto &term : t) {
                // NOTE: old clang does not like structured
                // bindings in the for loop.
                auto &k = term.first;
                auto &c = term.second;

                // Compute the merged key.
                auto merged_key = ::obake::key_merge_symbols(k, ins_map, orig_ss);
''', '''        auto to_it = to._get_s_table().begin();
        for (auto &t : from._get_s_table()) {
            auto &to_table = *to_it++;

            for (auto &term : t) {
                // NOTE: old clang does not like structured
                // bindings in the for loop.
                auto &k = term.first;
                auto &c = term.second;

                // Compute the merged key.
                auto merged_key = ::obake::key_merge_symbols(k, ins_map, orig_ss);
'''), (SH, '''                if constexpr (is_mutable_rvalue_reference_v<From &&>) {
                    detail::series_add_term<true, check_zero, sat_check_compat_key::off, sat_check_table_size::on,
                                            sat_assume_unique::on>(to, ::std::move(merged_key), ::std::move(c));
                } else {
                    detail::series_add_term<true, check_zero, sat_check_compat_key::off, sat_check_table_size::on,
                                            sat_assume_unique::on>(to, ::std::move(merged_key), ::std::as_const(c));
                }
            }
        }
    } else {
        auto &to_table = to._get_s_table()[0];
''', '''                // The number of segments is the same, thus we can move
                // table by table.
                if constexpr (is_mutable_rvalue_reference_v<From &&>) {
                    detail::series_add_term_table<true, check_zero, sat_check_compat_key::off,
                                                  sat_check_table_size::on, sat_assume_unique::on>(
                        to, to_table, ::std::move(merged_key), ::std::move(c));
                } else {
                    detail::series_add_term_table<true, check_zero, sat_check_compat_key::off,
                                                  sat_check_table_size::on, sat_assume_unique::on>(
                        to, to_table, ::std::move(merged_key), ::std::as_const(c));
                }
            }
        }
    } else {
        auto &to_table = to._get_s_table()[0];
''')],
    demo=PRE + r'''
int main()
{
    using K = packed_monomial<std::int32_t>;
    using P = polynomial<K, int>;
    P a;
    a.set_symbol_set(symbol_set{"b", "c"});
    a.set_n_segments(2);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) a.add_term(K{i, j}, 1 + i + j);
    P x;
    x.set_symbol_set(symbol_set{"a", "aa"});
    x.add_term(K{1, 0}, 1);
    const auto s = a + x;
    REQUIRE(s.size() == 37u);
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) {
            const auto it = s.find(K{0, 0, i, j});
            REQUIRE(it != s.end() && it->second == 1 + i + j);
        }
    auto u = s;
    u -= a;
    REQUIRE(u == x);
    P c;
    c.set_symbol_set(symbol_set{"a", "aa", "b", "c"});
    for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j) c.add_term(K{0, 0, i, j}, 1 + i + j);
    REQUIRE(s - c == x);
}
'''),
dict(id='pow-cache-symbols', property='C22', srcs=POLY,
    needs='powers of two series with the same keys and coefficients over different symbols, one after the other',
    breaks='the power of the second series is the cached power of the first one',
    edits=[(SH, '''            return internal::series_are_identical(::std::any_cast<const Base &>(x), ::std::any_cast<const Base &>(y));''',
    '''            // The hash is the one of the terms, so is the comparison.
            return internal::series_cmp_identical_ss(::std::any_cast<const Base &>(x), ::std::any_cast<const Base &>(y));''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, double>;
    auto [x, y, u, v] = make_polynomials<P>("x", "y", "u", "v");
    const P a = x + y, b = u - v, c = u + v;
    REQUIRE(obake::pow(a, 2) == a * a);
    REQUIRE(obake::pow(b, 2) == b * b);
    REQUIRE(obake::pow(c, 3) == c * c * c);
    REQUIRE(obake::pow(a, 3) == a * a * a);
}
'''),
]
