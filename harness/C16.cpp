// Sums and differences of series: for every pair of series the result is the canonical representation of the sum of
// the two functions from keys to coefficients, whatever the symbols, segments, value categories and coefficient types.
#include "ser.hpp"

static const char *const sets[][3] = {
    {"ab", "ab", "ab"}, {"a", "ab", "ab"}, {"ab", "b", "ab"}, {"a", "b", "ab"}, {"ac", "ab", "abc"}, {"", "a", "a"}};

// Bring the model to the coefficients a series has after a conversion to z8.
template <typename S>
static void operands(S &x, model &m, const char *ss, unsigned max, const char *name, unsigned log2)
{
    x = sx_series<S>(m, static_cast<unsigned>(sx_choose(name, max + 1u)), ss, log2);
}

template <bool Sign, typename X, typename Y>
static auto op(X &&x, Y &&y)
{
    if constexpr (Sign) {
        return std::forward<X>(x) + std::forward<Y>(y);
    } else {
        return std::forward<X>(x) - std::forward<Y>(y);
    }
}
template <bool Sign, typename X, typename Y>
static decltype(auto) ip(X &x, Y &&y)
{
    if constexpr (Sign) {
        return (x += std::forward<Y>(y));
    } else {
        return (x -= std::forward<Y>(y));
    }
}
static constexpr unsigned nx = 2, ny = 2;
#if defined(SX_THOROUGH)
static constexpr unsigned both = 2;
#else
static constexpr unsigned both = 1;
#endif
// The operands: z8 or z16 each, same or different symbols.
template <bool Sign, typename X, typename Y, unsigned LX = 0, unsigned LY = 0>
static void binary()
{
    const auto &ss = sets[sx_choose("set", 6)];
    model mx, my;
    X x;
    Y y;
    operands(x, mx, ss[0], LX + LY ? 1 : nx, "nx", LX);
    operands(y, my, ss[1], LX && LY ? both : ny, "ny", LY);
    const auto ex = extend(mx, ss[0], ss[2]), ey = extend(my, ss[1], ss[2]);
    const auto want = Sign ? ex + ey : ex - ey;
    switch (sx_choose("how", 4)) {
        case 0: {
            sx_verify(op<Sign>(x, y), want, ss[2]);
            sx_verify(x, mx, ss[0]);
            sx_verify(y, my, ss[1]);
            break;
        }
        case 1: {
            const Y &cy = y;
            sx_verify(op<Sign>(std::move(x), cy), want, ss[2]);
            sx_verify(y, my, ss[1]);
            break;
        }
        case 2: {
            sx_verify(op<Sign>(x, std::move(y)), want, ss[2]);
            sx_verify(x, mx, ss[0]);
            break;
        }
        default: {
            sx_verify(op<Sign>(std::move(x), std::move(y)), want, ss[2]);
        }
    }
    sx_reach("end");
}
HARNESS(add) { binary<true, s8, s8>(); }
HARNESS(sub) { binary<false, s8, s8>(); }
HARNESS(add_z8_z16) { binary<true, s8, s16>(); }
HARNESS(sub_z16_z8) { binary<false, s16, s8>(); }
HARNESS(add_seg_left) { binary<true, s8, s8, 1, 0>(); }
HARNESS(sub_seg_right) { binary<false, s8, s8, 0, 1>(); }
HARNESS(sub_seg_both) { binary<false, s8, s8, 1, both>(); }

template <bool Sign, typename X, typename Y, unsigned LX = 0, unsigned LY = 0>
static void in_place()
{
    const auto &ss = sets[sx_choose("set", 6)];
    model mx, my;
    X x;
    Y y;
    operands(x, mx, ss[0], LX + LY ? 1 : nx, "nx", LX);
    operands(y, my, ss[1], LX && LY ? both : ny, "ny", LY);
    const auto ex = extend(mx, ss[0], ss[2]), ey = extend(my, ss[1], ss[2]);
    const auto want = Sign ? ex + ey : ex - ey;
    if (sx_choose("how", 2) == 0) {
        auto &r = ip<Sign>(x, y);
        sx_check(&r == &x, "returns its left operand");
        sx_verify(y, my, ss[1]);
    } else {
        auto &r = ip<Sign>(x, std::move(y));
        sx_check(&r == &x, "returns its left operand");
    }
    sx_verify(x, want, ss[2]);
    sx_reach("end");
}
HARNESS(in_place_add) { in_place<true, s8, s8>(); }
HARNESS(in_place_sub) { in_place<false, s8, s8>(); }
HARNESS(in_place_add_z8_z16) { in_place<true, s8, s16>(); }
HARNESS(in_place_sub_z16_z8) { in_place<false, s16, s8>(); }
HARNESS(in_place_sub_seg_left) { in_place<false, s8, s8, 1, 0>(); }
HARNESS(in_place_add_seg_right) { in_place<true, s8, s8, 0, 1>(); }

// An operand that is both sides.
HARNESS(self)
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    s8 x = sx_series<s8>(m, n, "ab", l);
    switch (sx_choose("how", 8)) {
        case 0: sx_verify(x + x, m + m, "ab"); break;
        case 1: sx_verify(x - x, {}, "ab"); break;
        case 2: sx_verify(std::move(x) + x, m + m, "ab"); return;
        case 3: sx_verify(x - std::move(x), {}, "ab"); return;
        case 4: x += x; m = m + m; break;
        case 5: x -= x; m.clear(); break;
        case 6: x += std::move(x); sx_verify(x, m + m, "ab"); return;
        default: x -= std::move(x); sx_verify(x, {}, "ab"); return;
    }
    sx_verify(x, m, "ab");
    sx_reach("end");
}

HARNESS(unary)
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    s8 x = sx_series<s8>(m, n, "ab", l);
    sx_verify(+x, m, "ab");
    sx_verify(-x, -m, "ab");
    sx_verify(-(-x), m, "ab");
    sx_verify(x, m, "ab");
    obake::negate(x);
    sx_verify(x, -m, "ab");
    sx_check(obake::is_zero(x) == m.empty(), "zero test");
    sx_verify(+std::move(x), -m, "ab");
    sx_reach("end");
}
HARNESS(unary_move)
{
    model m;
    s8 x = sx_series<s8>(m, 2, "ab", static_cast<unsigned>(sx_choose("seg", 2)));
    sx_verify(-std::move(x), -m, "ab");
    sx_reach("end");
}

// A series and a coefficient, a series and a series of coefficients of lower rank.
template <typename S, typename C>
static void scalar()
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3)), l = static_cast<unsigned>(sx_choose("seg", 2));
    S x = sx_series<S>(m, n, "a", l);
    const C c = sx_cf<C>();
    model k;
    k.push_back({tk{}, c.v});
    switch (sx_choose("how", 8)) {
        case 0: sx_verify(x + c, m + k, "a"); break;
        case 1: sx_verify(x - c, m - k, "a"); break;
        case 2: sx_verify(c + x, k + m, "a"); break;
        case 3: sx_verify(c - x, k - m, "a"); break;
        case 4: x += c; m = m + k; break;
        case 5: x -= c; m = m - k; break;
        case 6: sx_verify(C(c) - std::move(x), k - m, "a"); return;
        default: sx_verify(std::move(x) + C(c), k + m, "a"); return;
    }
    sx_verify(x, m, "a");
    sx_reach("end");
}
HARNESS(scalar_z8) { scalar<s8, z8>(); }
HARNESS(scalar_z16_z8) { scalar<s16, z8>(); }

// Coefficients that are themselves series.
HARNESS(nested)
{
    using ss8 = series<tk, s8, tst::stag>;
    model m, k;
    s8 x = sx_series<s8>(m, 1, "a"), y = sx_series<s8>(k, 1, "b");
    ss8 n(x);
    switch (sx_choose("how", 5)) {
        case 0: n = n + y; k = extend(m, "a", "ab") + extend(k, "b", "ab"); break;
        case 1: n = y - n; k = extend(k, "b", "ab") - extend(m, "a", "ab"); break;
        case 2: n += y; k = extend(m, "a", "ab") + extend(k, "b", "ab"); break;
        case 3: n -= std::move(y); k = extend(m, "a", "ab") - extend(k, "b", "ab"); break;
        default: n -= x; sx_check(n.empty(), "zero"); return;
    }
    sx_check(n.size() <= 1u, "one nested term");
    if (n.empty()) {
        // The sum of a constant in a and one in b may be zero.
        sx_check(coef_of(k, tk{}) % 256u == 0u, "absent only if zero");
    } else {
        sx_verify(n.begin()->second, k, "ab");
    }
    sx_reach("end");
}
