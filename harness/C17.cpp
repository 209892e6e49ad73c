// Equality of series: true exactly when the two functions from keys to coefficients (and the tags) are the same.
#include "ser.hpp"

static const char *const sets[][3] = {
    {"ab", "ab", "ab"}, {"a", "ab", "ab"}, {"ab", "b", "ab"}, {"a", "b", "ab"}, {"ac", "ab", "abc"}, {"", "a", "a"}};

// Are two canonical models (distinct keys, nonzero coefficients) the same function?
static bool same(const model &a, const model &b)
{
    bool r = a.size() == b.size();
    for (const auto &t : a) {
        r = sx_and(r, coef_of(b, t.k) == t.c);
    }
    return r;
}
template <typename X, typename Y, unsigned LX, unsigned LY, unsigned NX, unsigned NY>
static void equality()
{
    const auto &ss = sets[sx_choose("set", 6)];
    model mx, my;
    X x = sx_series<X>(mx, static_cast<unsigned>(sx_choose("nx", NX + 1u)), ss[0], LX);
    Y y = sx_series<Y>(my, static_cast<unsigned>(sx_choose("ny", NY + 1u)), ss[1], LY);
    const bool want = same(extend(mx, ss[0], ss[2]), extend(my, ss[1], ss[2]));
    switch (sx_choose("how", 6)) {
        case 0: sx_check((x == y) == want, "equal iff the same function"); break;
        case 1: sx_check((y == x) == want, "symmetric"); break;
        case 2: sx_check((x != y) == !want, "unequal iff not equal"); break;
        case 3: {
            const Y &cy = y;
            sx_check((std::move(x) == cy) == want, "equality of an rvalue and an lvalue");
            sx_verify(y, my, ss[1]);
            return;
        }
        case 4: {
            const X &cx = x;
            sx_check((cx != std::move(y)) == !want, "inequality of an lvalue and an rvalue");
            sx_verify(x, mx, ss[0]);
            return;
        }
        default: sx_check((std::move(x) == std::move(y)) == want, "equality of rvalues"); return;
    }
    sx_verify(x, mx, ss[0]);
    sx_verify(y, my, ss[1]);
    sx_reach("end");
}
HARNESS(eq) { equality<s8, s8, 0, 0, 2, 2>(); }
HARNESS(eq_z8_z16) { equality<s8, s16, 0, 0, 2, 1>(); }
HARNESS(eq_z16_z8) { equality<s16, s8, 0, 0, 1, 2>(); }
HARNESS(eq_seg_left) { equality<s8, s8, 1, 0, 2, 2>(); }
HARNESS(eq_seg_right) { equality<s8, s8, 0, 2, 1, 2>(); }
#if defined(SX_THOROUGH)
HARNESS(eq_seg_both) { equality<s8, s8, 1, 2, 2, 2>(); }
#endif

// The same terms inserted in another order, with another segmentation, split in two, or with unused symbols.
HARNESS(representations)
{
    model m;
    const auto kind = sx_choose("kind", 3); // 3 terms, 2 terms with other sums on the way, 2 terms with segments
    const auto n = kind ? static_cast<unsigned>(sx_choose("n", 3)) : 3u;
    const s8 x = sx_series<s8>(m, n, "ab", 0);
    s8 y;
    const bool more = sx_choose("more symbols", 2);
    y.set_symbol_set(sx_ss(more ? "abc" : "ab"));
    y.set_n_segments(kind == 2);
    const auto first = static_cast<unsigned>(sx_choose("first", n ? n : 1u));
    const bool split = kind == 1;
    for (unsigned i = 0; i < n; ++i) {
        const auto &t = m[(first + i) % n];
        z8 c;
        c.v = static_cast<std::uint8_t>(t.c);
        if (split) {
            // Sums that pass through other values, possibly zero.
            const z8 d = sx_cf<z8>();
            y.add_term(t.k, d);
            y.add_term(t.k, c);
            y.template add_term<false>(t.k, d);
        } else {
            y.add_term(t.k, c);
        }
    }
    sx_check(x == y, "equal to another representation");
    sx_check(!(y != x), "not unequal to another representation");
    sx_reach("end");
}

// A series and a constant.
template <typename S, typename C>
static void constant()
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    S x = sx_series<S>(m, n, "ab", l);
    const C c = sx_cf<C>();
    const bool want = n == 0u ? c.v == 0 : n == 1u ? sx_and(m[0].k == tk{}, m[0].c == c.v) : false;
    switch (sx_choose("how", 5)) {
        case 0: sx_check((x == c) == want, "series == constant"); break;
        case 1: sx_check((c == x) == want, "constant == series"); break;
        case 2: sx_check((x != c) == !want, "series != constant"); break;
        case 3: sx_check((c != x) == !want, "constant != series"); break;
        default: sx_check((std::move(x) == C(c)) == want, "rvalues"); return;
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}
HARNESS(constant_z8) { constant<s8, z8>(); }
HARNESS(constant_z16_z8) { constant<s16, z8>(); }
HARNESS(constant_z8_z16) { constant<s8, z16>(); }

// Series of series.
HARNESS(nested)
{
    using ss8 = series<tk, s8, tst::stag>;
    model m, k;
    s8 x = sx_series<s8>(m, static_cast<unsigned>(sx_choose("n", 2)), "a"),
       y = sx_series<s8>(k, static_cast<unsigned>(sx_choose("m", 2)), "b");
    const bool want = same(extend(m, "a", "ab"), extend(k, "b", "ab"));
    const ss8 n(x), o(y);
    sx_check((n == y) == want, "series of series == series");
    sx_check((y != n) == !want, "series != series of series");
    sx_check((n == o) == want, "series of series");
    const z8 c = sx_cf<z8>();
    const bool cw = m.empty() ? c.v == 0 : sx_and(m[0].k == tk{}, m[0].c == c.v);
    sx_check((n == c) == cw, "series of series == constant");
    sx_reach("end");
}

// Tags that can be compared take part.
namespace tst
{
struct vtag {
    std::uint8_t v = 0;
    friend bool operator==(const vtag &a, const vtag &b) { return a.v == b.v; }
    friend bool operator!=(const vtag &a, const vtag &b) { return a.v != b.v; }
};
} // namespace tst
HARNESS(tags)
{
    using sv = series<tk, z8, tst::vtag>;
    const auto &ss = sets[sx_choose("set", 6)];
    model mx, my;
    sv x = sx_series<sv>(mx, static_cast<unsigned>(sx_choose("nx", 2)), ss[0]),
       y = sx_series<sv>(my, static_cast<unsigned>(sx_choose("ny", 2)), ss[1]);
    x.tag().v = sx::sym<std::uint8_t>("tag");
    y.tag().v = sx::sym<std::uint8_t>("tag");
    const bool want = sx_and(x.tag().v == y.tag().v, same(extend(mx, ss[0], ss[2]), extend(my, ss[1], ss[2])));
    switch (sx_choose("how", 2)) {
        case 0: sx_check((x == y) == want, "equal iff the same function and tag"); break;
        default: sx_check((std::move(y) != std::move(x)) == !want, "rvalues"); return;
    }
    sx_verify(x, mx, ss[0]);
    sx_reach("end");
}
