// Truncated products of polynomials, by total or partial degree: the terms of the product made by pairs of terms whose
// degrees sum to no more than the limit.
#include "poly.hpp"

static const char *const sets[][3] = {
    {"a", "a", "a"}, {"ab", "ab", "ab"}, {"a", "ab", "ab"}, {"ab", "b", "ab"}, {"a", "b", "ab"}, {"ac", "ab", "abc"}};

// The degree in the variables of ss that are in s.
static int deg(const tk &k, const char *ss, const char *s)
{
    int r = 0;
    for (unsigned i = 0; ss[i]; ++i) {
        for (const char *p = s; *p; ++p) {
            if (*p == ss[i]) {
                r += k.e[i];
            }
        }
    }
    return r;
}
template <typename D>
static model truncated(const model &x, const model &y, const char *ss, const char *s, D limit)
{
    model r;
    for (const auto &a : x) {
        for (const auto &b : y) {
            const int d = deg(a.k, ss, s) + deg(b.k, ss, s);
            r.push_back({key_prod(a.k, b.k), sx::ite<std::uint32_t>(d <= static_cast<int>(limit), a.c * b.c, 0u)});
        }
    }
    return r;
}
template <typename F>
static void verify(F f, const model &x, const model &y, const model &want, const char *ss)
{
    const bool fit = all_fit(x, y);
    try {
        const auto r = f();
        sx_check(fit, "no overflow");
        sx_verify(r, want, ss);
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if a product overflows");
    }
}

template <typename X, typename Y, typename D, bool Partial>
static void simple(unsigned first, unsigned n, unsigned nx, unsigned ny, const char *s)
{
    const auto &ss = sets[first + (n > 1 ? sx_choose("set", n) : 0)];
    model mx, my;
    const X x = sx_series<X>(mx, nx, ss[0]);
    const Y y = sx_series<Y>(my, ny, ss[1]);
    const auto ex = extend(mx, ss[0], ss[2]), ey = extend(my, ss[1], ss[2]);
    const D limit = sx::sym<D>("limit");
    verify(
        [&] {
            if constexpr (Partial) {
                return polynomials::truncated_mul(x, y, limit, sx_ss(s));
            } else {
                return polynomials::truncated_mul(x, y, limit);
            }
        },
        ex, ey, truncated(ex, ey, ss[2], Partial ? s : ss[2], limit), ss[2]);
    sx_verify(x, mx, ss[0]);
    sx_verify(y, my, ss[1]);
    sx_reach("end");
}
HARNESS(degree_2_2) { simple<p8, p8, std::int16_t, false>(0, 1, 2, 2, ""); }
HARNESS(degree_sets) { simple<p8, p8, std::int16_t, false>(2, 4, 1, 2, ""); }
HARNESS(degree_z8_z16) { simple<p8, p16, std::int32_t, false>(2, 2, 2, 1, ""); }
HARNESS(degree_fma) { simple<pf8, pf8, std::int16_t, false>(0, 1, 2, 2, ""); }
HARNESS(degree_3_1) { simple<p8, p8, std::int16_t, false>(0, 1, 3, 1, ""); }
HARNESS(degree_empty) { simple<p8, p8, std::int16_t, false>(0, 5, sx_choose("nx", 2), 0, ""); }
HARNESS(p_degree_2_2) { simple<p8, p8, std::int16_t, true>(1, 1, 2, 2, sx_choose("s", 2) ? "b" : "a"); }
HARNESS(p_degree_sets) { simple<p8, p8, std::int16_t, true>(2, 4, 1, 2, sx_choose("s", 2) ? "bd" : "a"); }
HARNESS(p_degree_all) { simple<p8, p8, std::int16_t, true>(1, 3, 1, 2, sx_choose("s", 2) ? "ab" : "xyz"); }
#if defined(SX_THOROUGH)
HARNESS(degree_2_2_ab) { simple<p8, p8, std::int16_t, false>(1, 1, 2, 2, ""); }
HARNESS(degree_2_3) { simple<p8, p8, std::int16_t, false>(0, 1, 2, 3, ""); }
HARNESS(p_degree_2_2_sets) { simple<p8, p8, std::int16_t, true>(2, 4, 2, 2, sx_choose("s", 2) ? "bd" : "a"); }
#endif

template <typename P, bool Partial>
static void parallel(unsigned nx, unsigned ny, std::size_t size, int split, unsigned seg, const char *ss)
{
    model mx, my;
    tst::cf_byte_size = size;
    const P x = sx_series<P>(mx, nx, ss, seg), y = sx_series<P>(my, ny, ss);
    const std::int16_t limit = sx::sym<std::int16_t>("limit");
    sx_split(split);
    const auto s = sx_ss("b");
    verify(
        [&] {
            P r;
            r.set_symbol_set_fw(x.get_symbol_set_fw());
            if constexpr (Partial) {
                polynomials::detail::poly_mul_impl_mt_hm(r, x, y, limit, s);
            } else {
                polynomials::detail::poly_mul_impl_mt_hm(r, x, y, limit);
            }
            return r;
        },
        mx, my, truncated(mx, my, ss, Partial ? "b" : ss, limit), ss);
    sx_verify(x, mx, ss);
    sx_reach("end");
}
#define S(n) (static_cast<int>(sx_choose("split", n)))
constexpr std::size_t K = 1024; // the size of a segment is 200 K
HARNESS(parallel_1_1) { parallel<p8, false>(1, 1, 1, S(3), sx_choose("seg", 2), "a"); }
HARNESS(parallel_1_2) { parallel<p8, false>(1, 2, 1, S(3), 0, "a"); }
HARNESS(parallel_1_2_seg2) { parallel<p8, false>(1, 2, 100 * K, S(2), 0, "a"); }
HARNESS(parallel_1_1_seg4) { parallel<p8, false>(1, 1, 400 * K, S(2), 0, "ab"); }
HARNESS(parallel_2_2) { parallel<p8, false>(2, 2, 1, 0, 0, "a"); }
HARNESS(parallel_p_1_2) { parallel<p8, true>(1, 2, 1, 0, 0, "ab"); }
HARNESS(parallel_p_1_2_seg2) { parallel<p8, true>(1, 2, 100 * K, 0, 0, "ab"); }
HARNESS(parallel_2_2_seg2) { parallel<pf8, false>(2, 2, 50 * K, 0, 0, "a"); }
#if defined(SX_THOROUGH)
HARNESS(parallel_1_2_seg4) { parallel<p8, false>(1, 2, 200 * K, S(3), 0, "a"); }
HARNESS(parallel_2_2_seg4) { parallel<pf8, false>(2, 2, 100 * K, 0, 0, "a"); }
HARNESS(parallel_p_2_2_seg2) { parallel<pf8, true>(2, 2, 50 * K, 0, 0, "ab"); }
#endif

// The choice of the algorithm.
HARNESS(dispatch)
{
    model mx, my;
    tst::cf_byte_size = sx_choose("size", 2) ? 40000 : 1;
    sx_cores = sx_choose("cores", 2) ? 8 : 1;
    const auto &ss = sets[sx_choose("set", 4)];
    const p8 x = sx_series<p8>(mx, static_cast<unsigned>(sx_choose("nx", 3)), ss[0]), y = sx_series<p8>(my, 1, ss[1]);
    const auto ex = extend(mx, ss[0], ss[2]), ey = extend(my, ss[1], ss[2]);
    const std::int16_t limit = sx::sym<std::int16_t>("limit");
    if (sx_choose("partial", 2)) {
        verify([&] { return polynomials::truncated_mul(x, y, limit, sx_ss("b")); }, ex, ey,
               truncated(ex, ey, ss[2], "b", limit), ss[2]);
    } else {
        verify([&] { return polynomials::truncated_mul(x, y, limit); }, ex, ey, truncated(ex, ey, ss[2], ss[2], limit),
               ss[2]);
    }
    sx_reach("end");
}

// Truncation of a polynomial.
template <typename D, bool Partial>
static void truncate(unsigned n, unsigned seg, const char *s)
{
    model m;
    p8 x = sx_series<p8>(m, n, "ab", seg);
    const D limit = sx::sym<D>("limit");
    if constexpr (Partial) {
        obake::truncate_p_degree(x, limit, sx_ss(s));
    } else {
        obake::truncate_degree(x, limit);
        s = "ab";
    }
    for (auto &t : m) {
        t.c = sx::ite<std::uint32_t>(deg(t.k, "ab", s) <= static_cast<int>(limit), t.c, 0u);
    }
    sx_verify(x, m, "ab");
    sx_check(x.get_s_size() == seg, "segmentation");
    sx_reach("end");
}
HARNESS(truncate_degree) { truncate<std::int16_t, false>(sx_choose("n", 4), 0, ""); }
HARNESS(truncate_degree_seg) { truncate<std::int16_t, false>(sx_choose("n", 3), 1, ""); }
HARNESS(truncate_p_degree) { truncate<std::int16_t, true>(sx_choose("n", 4), 0, sx_choose("s", 2) ? "b" : "ax"); }
HARNESS(truncate_p_degree_seg) { truncate<std::int32_t, true>(sx_choose("n", 3), 1, "b"); }
