// Products of polynomials: the product of the two functions from monomials to coefficients, or an overflow error if
// and only if a product of two monomials cannot be represented; for both algorithms.
#include "poly.hpp"

static const char *const sets[][3] = {
    {"a", "a", "a"}, {"a", "ab", "ab"}, {"ab", "b", "ab"}, {"a", "b", "ab"}, {"ac", "ab", "abc"}, {"", "a", "a"}};

template <typename R, typename F>
static void verify(F f, const model &x, const model &y, const char *ss)
{
    const bool fit = all_fit(x, y);
    try {
        const auto r = f();
        static_assert(std::is_same_v<decltype(f()), R>);
        sx_check(fit, "no overflow");
        sx_verify(r, x * y, ss);
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if a product overflows");
    }
}

// operator*, with operands that take the simple algorithm.
template <typename X, typename Y, typename R, unsigned NX, unsigned NY>
static void simple(unsigned first, unsigned n)
{
    const auto &ss = sets[first + sx_choose("set", n)];
    model mx, my;
    const X x = sx_series<X>(mx, static_cast<unsigned>(sx_choose("nx", NX + 1u)), ss[0]);
    const Y y = sx_series<Y>(my, static_cast<unsigned>(sx_choose("ny", NY + 1u)), ss[1]);
    verify<R>([&] { return x * y; }, extend(mx, ss[0], ss[2]), extend(my, ss[1], ss[2]), ss[2]);
    sx_verify(x, mx, ss[0]);
    sx_verify(y, my, ss[1]);
    sx_reach("end");
}
HARNESS(simple_same) { simple<p8, p8, p8, 2, 2>(0, 1); }
HARNESS(simple_sets) { simple<p8, p8, p8, 1, 2>(1, 5); }
HARNESS(simple_fma) { simple<pf8, pf8, pf8, 2, 2>(0, 1); }
HARNESS(simple_z8_z16) { simple<p8, p16, p8, 1, 2>(0, 3); }
HARNESS(simple_long_short) { simple<p8, p8, p8, 3, 1>(0, 1); }

// The multi-threaded algorithm, with 2^log2 segments in the result and the ranges split in every way.
template <typename P>
static void parallel(unsigned nx, unsigned ny, std::size_t size, int split, unsigned seg, int range = 0)
{
    model mx, my;
    tst::cf_byte_size = size;
    const P x = sx_series<P>(mx, nx, "a", seg), y = sx_series<P>(my, ny, "a");
    if (range) {
        // Few exponents, so that there can be more segments.
        for (auto *m : {&mx, &my}) {
            for (unsigned i = 0; i < m->size(); ++i) {
                sx_assume(sx_and((*m)[i].k.e[0] >= 0, (*m)[i].k.e[0] < range));
                sx_assume(sx_and((*m)[i].c != 0u, (*m)[i].c < 8u));
                if (i) {
                    sx_assume((*m)[i].k.e[0] > (*m)[i - 1u].k.e[0]);
                }
            }
        }
    }
    sx_split(split);
    verify<P>(
        [&] {
            P r;
            r.set_symbol_set_fw(x.get_symbol_set_fw());
            polynomials::detail::poly_mul_impl_mt_hm(r, x, y);
            return r;
        },
        mx, my, "a");
    sx_verify(x, mx, "a");
    sx_reach("end");
}
#define S(n) (static_cast<int>(sx_choose("split", n)))
constexpr std::size_t K = 1024; // the size of a segment is 200 K
HARNESS(parallel_1_1) { parallel<p8>(1, 1, 1, S(3), sx_choose("seg", 2)); }
HARNESS(parallel_1_2) { parallel<p8>(1, 2, 1, S(3), sx_choose("seg", 2)); }
HARNESS(parallel_1_2_seg2) { parallel<p8>(1, 2, 100 * K, S(3), 0); }
HARNESS(parallel_1_2_seg4) { parallel<p8>(1, 2, 200 * K, S(2), 0); }
HARNESS(parallel_1_1_seg8) { parallel<p8>(1, 1, 800 * K, S(2), 1); }
HARNESS(parallel_2_2) { parallel<p8>(2, 2, 1, 0, 0); }
HARNESS(parallel_2_2_seg8_few) { parallel<p8>(2, 2, 200 * K, 0, 0, 8); }
HARNESS(parallel_2_2_seg2) { parallel<pf8>(2, 2, 50 * K, 0, 0); }
#if defined(SX_THOROUGH)
HARNESS(parallel_1_2_seg8) { parallel<p8>(1, 2, 400 * K, S(3), 1); }
HARNESS(parallel_2_2_seg4) { parallel<p8>(2, 2, 100 * K, S(3), 1); }
HARNESS(parallel_2_2_seg8) { parallel<p8>(2, 2, 200 * K, 0, 0); }
HARNESS(parallel_2_3_seg2) { parallel<p8>(2, 3, 33 * K, S(3), 1); }
#endif

// The choice of the algorithm.
HARNESS(dispatch)
{
    model mx, my;
    tst::cf_byte_size = sx_choose("size", 2) ? 40000 : 1;
    sx_cores = sx_choose("cores", 2) ? 8 : 1;
    const auto &ss = sets[sx_choose("set", 4)];
    const p8 x = sx_series<p8>(mx, static_cast<unsigned>(sx_choose("nx", 3)), ss[0]), y = sx_series<p8>(my, 1, ss[1]);
    verify<p8>([&] { return x * y; }, extend(mx, ss[0], ss[2]), extend(my, ss[1], ss[2]), ss[2]);
    sx_reach("end");
}

// With the monomials of the library.
#include "mono.hpp"
template <typename K>
static void real(const char *sx, const char *sy, const char *sr, unsigned nx)
{
    using P = polynomial<K, z8>;
    const auto len = [](const char *s) { return static_cast<unsigned>(std::char_traits<char>::length(s)); };
    const auto index = [&](const char *s, char c) -> int {
        for (unsigned i = 0; i < len(s); ++i) {
            if (s[i] == c) {
                return static_cast<int>(i);
            }
        }
        return -1;
    };
    const unsigned n = len(sr);
    P x, y;
    x.set_symbol_set(sx_ss(sx));
    y.set_symbol_set(sx_ss(sy));
    std::vector<expos<K>> ex;
    std::vector<z8> cx;
    // Exponents that the type can represent before and after the extension of the symbols.
    for (unsigned i = 0; i < nx; ++i) {
        auto e = sx_expos<K>(n);
        e.resize(len(sx));
        if (i) {
            bool differ = false;
            for (unsigned j = 0; j < e.size(); ++j) {
                differ = sx_or(differ, e[j] != ex[0][j]);
            }
            sx_assume(differ);
        }
        const auto c = sx_cf<z8>();
        sx_assume(c.v != 0);
        x.add_term(sx_key<K>(e), c);
        ex.push_back(e);
        cx.push_back(c);
    }
    auto ey = sx_expos<K>(n);
    ey.resize(len(sy));
    const auto d = sx_cf<z8>();
    sx_assume(d.v != 0);
    y.add_term(sx_key<K>(ey), d);
    // The sums of the exponents.
    const auto [lo, hi] = mono<K>::lims(n);
    bool fit = true;
    std::vector<expos<K>> es;
    for (const auto &e : ex) {
        expos<K> s;
        for (unsigned j = 0; j < n; ++j) {
            const int a = index(sx, sr[j]), b = index(sy, sr[j]);
            wide w = 0;
            w += a < 0 ? wide(0) : wide(e[static_cast<unsigned>(a)]);
            w += b < 0 ? wide(0) : wide(ey[static_cast<unsigned>(b)]);
            fit = sx_and(fit, sx_and(w >= lo, w <= hi));
            s.push_back(static_cast<typename mono<K>::value_type>(w));
        }
        es.push_back(s);
    }
    try {
        const auto r = sx_choose("order", 2) ? x * y : y * x;
        sx_check(fit, "no overflow");
        sx_check(r.get_symbol_set() == sx_ss(sr), "symbol set");
        std::size_t count = 0;
        for (unsigned i = 0; i < nx; ++i) {
            const auto it = r.find(sx_raw_key<K>(es[i]));
            const auto want = static_cast<std::uint8_t>(cx[i].v * d.v);
            if (want == 0) {
                sx_check(it == r.end(), "no term with a zero coefficient");
            } else {
                sx_check(it != r.end(), "term of the product");
                sx_check(it->second.v == want, "its coefficient");
                ++count;
            }
        }
        sx_check(r.size() == count, "no other terms");
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if a product overflows");
    }
    sx_reach("end");
}
HARNESS(real_pm_i32) { real<pm_i32>("a", "a", "a", 2); }
HARNESS(real_pm_u64) { real<pm_u64>("a", "a", "a", 2); }
HARNESS(real_pm_i32_merge) { real<pm_i32>("a", "b", "ab", 1); }
HARNESS(real_pm_i64_merge) { real<pm_i64>("ab", "b", "ab", 1); }
HARNESS(real_dpm_i64_8) { real<dpm_i64_8>("a", "a", "a", 1); }
HARNESS(real_dpm_u32_3_merge) { real<dpm_u32_3>("a", "b", "ab", 1); }
