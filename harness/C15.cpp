// Series are canonical: no zero terms, distinct keys, every term in its segment, after every way of filling them.
#include "ser.hpp"

// Any sequence of insertions.
template <unsigned N, unsigned Log2>
static void insertions()
{
    s8 s;
    s.set_symbol_set(sx_ss("ab"));
    s.set_n_segments(Log2);
    model m;
    for (unsigned i = 0; i < N; ++i) {
        const tk k = sx_tk(2);
        z8 c = sx_cf<z8>();
        const auto v = c.v;
        const auto how = i + 1u == N ? sx_choose("how", 4) : 3u * sx_choose("sign", 2);
        if (how == 0) {
            s.add_term(k, c);
            sx_check(c.v == v, "the coefficient is not modified");
        } else if (how == 1) {
            s.add_term<false>(tk(k), std::move(c));
        } else if (how == 2) {
            s.add_term(tk(k), static_cast<int>(v));
        } else {
            s.add_term<false>(k, static_cast<int>(v));
        }
        m.push_back({k, how == 1 || how == 3 ? 0u - v : v});
    }
    sx_verify(s, m, "ab");
    sx_reach("insertions");
}
HARNESS(insert_2_1) { insertions<2, 0>(); }
HARNESS(insert_2_2) { insertions<2, 1>(); }
HARNESS(insert_3_1) { insertions<3, 0>(); }
#if defined(SX_THOROUGH)
HARNESS(insert_2_4) { insertions<2, 2>(); }
HARNESS(insert_3_2) { insertions<3, 1>(); }
#endif

HARNESS(incompatible)
{
    model m;
    s8 s = sx_series<s8>(m, 2, "a", static_cast<unsigned>(sx_choose("seg", 2)));
    const tk k = sx_tk(3);
    bool thrown = false;
    try {
        s.add_term(k, 1);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    sx_check(thrown == !key_is_compatible(k, s.get_symbol_set()), "rejected if and only if it is incompatible");
    if (!thrown) {
        m.push_back({k, 1});
    }
    sx_verify(s, m, "a");
    sx_reach("end");
}

template <unsigned Log2>
static void find_and_iterate()
{
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 4));
    s8 s = sx_series<s8>(m, n, "ab", Log2);
    const s8 &cs = s;
    sx_check(s.size() == n, "size");
    const tk p = sx_tk(2);
    const auto it = s.find(p);
    const auto cit = cs.find(p);
    bool present = false;
    for (const auto &t : m) {
        present = sx_or(present, t.k == p);
    }
    sx_check((it != s.end()) == present, "found if and only if present");
    sx_check((cit != cs.end()) == present, "found if and only if present (const)");
    if (it != s.end()) {
        sx_check(it->first == p, "the term found has that key");
        sx_check(it->second.v == static_cast<std::uint8_t>(coef_of(m, p)), "and its coefficient");
    }
    // Iteration visits each term once.
    unsigned count = 0;
    std::uint32_t sum = 0, want = 0;
    for (const auto &t : cs) {
        ++count;
        sum += sx::ite<std::uint32_t>(t.first == p, t.second.v, 0u) + 256u * t.second.v;
    }
    for (const auto &t : m) {
        want += sx::ite<std::uint32_t>(t.k == p, t.c, 0u) + 256u * t.c;
    }
    sx_check(count == n, "iteration visits as many terms as there are");
    sx_check(sum == want, "iteration visits every term once");
    count = 0;
    for (auto i = s.begin(); i != s.end(); ++i) {
        i->second.v = 7;
        ++count;
    }
    sx_check(count == n, "mutable iteration");
    for (auto i = s.cbegin(); i != s.cend(); i++) {
        sx_check(i->second.v == 7, "written through the iterator");
    }
    sx_reach("end");
}
HARNESS(find_1) { find_and_iterate<0>(); }
HARNESS(find_2) { find_and_iterate<1>(); }
#if defined(SX_THOROUGH)
HARNESS(find_4) { find_and_iterate<2>(); }
#endif

HARNESS(copy_move_swap)
{
    model m, m2;
    const auto l = static_cast<unsigned>(sx_choose("seg", 3));
    s8 s = sx_series<s8>(m, 2, "ab", l);
    s8 c(s);
    sx_verify(c, m, "ab");
    sx_verify(s, m, "ab");
    s8 d(std::move(c));
    sx_verify(d, m, "ab");
    c = d; // revive the moved-from series
    sx_verify(c, m, "ab");
    s8 o = sx_series<s8>(m2, 1, "a", 1);
    s8 o2(o);
    swap(o, c);
    sx_verify(o, m, "ab");
    sx_verify(c, m2, "a");
    o = std::move(c);
    sx_verify(o, m2, "a");
    o = o2;
    auto &r = o;
    o = r; // self-assignment
    sx_verify(o, m2, "a");
    d.clear();
    sx_verify(d, {}, "");
    s.clear_terms();
    sx_verify(s, {}, "ab");
    sx_reach("end");
}

// Conversion of the coefficients: those that become zero are not kept.
template <unsigned Log2>
static void cf_conversion()
{
    model m;
    s16 s = sx_series<s16>(m, 2, "a", Log2);
    s8 a(s);
    sx_verify(s, m, "a");
    sx_verify(a, m, "a");
    s8 b(std::move(s));
    sx_verify(b, m, "a");
    sx_check(s.empty(), "an input that was moved from is cleared");
    s8 c;
    c = a;
    s16 d = s16(c);
    for (auto &t : m) {
        t.c &= 0xffu;
    }
    sx_verify(d, m, "a");
    sx_reach("end");
}
HARNESS(cf_conversion_1) { cf_conversion<0>(); }
HARNESS(cf_conversion_2) { cf_conversion<1>(); }

// Extension to more symbols, with and without a conversion of the coefficients.
template <typename To, typename From>
static void extension(bool move, unsigned log2)
{
    static const char *const sets[][2] = {{"a", "ab"}, {"b", "ab"}, {"b", "abc"}, {"", "ab"}, {"ac", "abc"}};
    const auto &x = sets[sx_choose("set", 5)];
    model m;
    From s = sx_series<From>(m, 2u - (x[0][0] == 0), x[0], log2);
    const auto r = obake::detail::merge_symbol_sets(sx_ss(x[0]), sx_ss(x[1]));
    To t;
    t.set_symbol_set(sx_ss(x[1]));
    if (move) {
        obake::detail::series_sym_extender(t, std::move(s), std::get<1>(r));
        sx_check(s.empty(), "an input that was moved from is cleared");
    } else {
        obake::detail::series_sym_extender(t, s, std::get<1>(r));
        sx_verify(s, m, x[0]);
    }
    sx_verify(t, extend(m, x[0], x[1]), x[1]);
    sx_reach("end");
}
HARNESS(extend_same) { extension<s8, s8>(false, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(extend_same_move) { extension<s8, s8>(true, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(extend_conv) { extension<s8, s16>(false, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(extend_conv_move) { extension<s8, s16>(true, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(add_symbols)
{
    model m;
    const auto l = static_cast<unsigned>(sx_choose("seg", 2));
    s8 s = sx_series<s8>(m, 2, "b", l);
    sx_verify(obake::add_symbols(s, sx_ss("ac")), extend(m, "b", "abc"), "abc");
    sx_verify(obake::add_symbols(s, sx_ss("b")), m, "b");
    sx_verify(obake::add_symbols(s, sx_ss("")), m, "b");
    sx_verify(s, m, "b");
    sx_reach("end");
}

// Series made of a single coefficient, of a series of higher rank, and back.
HARNESS(ranks)
{
    using ss8 = series<tk, s8, tst::stag>;
    const z8 c = sx_cf<z8>();
    model one;
    one.push_back({tk{}, c.v});
    sx_verify(s8(c), one, "");
    sx_verify(s8(z8(c)), one, "");
    sx_verify(s8(static_cast<int>(c.v)), one, "");
    sx_verify(s8(c, sx_ss("ab")), one, "ab");
    const s8 a(c);
    sx_check(a.is_single_cf(), "a constant is a single coefficient");
    sx_check(static_cast<z8>(a) == c, "conversion to the coefficient");
    ss8 n(a);
    sx_check(n.size() == (c.v != 0), "nested constant");
    if (n.size()) {
        sx_verify(n.begin()->second, one, "");
    }
    sx_verify(s8(n), one, "");
    sx_verify(s8(ss8(n)), one, "");
    sx_reach("end");
}
HARNESS(not_a_constant)
{
    using ss8 = series<tk, s8, tst::stag>;
    model m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3));
    s8 a = sx_series<s8>(m, n, "a", static_cast<unsigned>(sx_choose("seg", 2)));
    const bool single = n == 0u || (n == 1u && m[0].k.e[0] == 0);
    sx_check(a.is_single_cf() == single, "is_single_cf");
    bool thrown = false;
    z8 v;
    try {
        v = static_cast<z8>(a);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    sx_check(thrown == !single, "only a constant converts to a coefficient");
    sx_check(thrown || v.v == (n ? m[0].c : 0u), "value of the constant");
    // A series of series with a single arbitrary term.
    ss8 q;
    q.set_symbol_set(sx_ss("z"));
    const tk k = sx_tk(1);
    sx_assume(k.e[0] != -128);
    q.add_term(k, a);
    thrown = false;
    s8 r;
    try {
        r = s8(q);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    const bool ok = sx_or(n == 0u, k.e[0] == 0);
    sx_check(thrown == !ok, "only a constant converts to a series of lower rank");
    if (!thrown) {
        sx_verify(r, m, n ? "a" : "");
    }
    sx_reach("end");
}

HARNESS(setters)
{
    model m;
    s8 s = sx_series<s8>(m, static_cast<unsigned>(sx_choose("n", 2)), "a", 1);
    bool thrown = false;
    try {
        s.set_symbol_set(sx_ss("b"));
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    sx_check(thrown == !m.empty(), "the symbols can be changed only in an empty series");
    sx_verify(s, m, m.empty() ? "b" : "a");
    thrown = false;
    const auto l = sx::sym<std::uint32_t>("l");
    sx_assume(l > 63u);
    try {
        s.set_n_segments(l);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    sx_check(thrown, "too many segments are rejected");
    sx_verify(s, m, m.empty() ? "b" : "a");
    s.set_n_segments(2);
    sx_check(s.empty() && s.get_s_size() == 2u && s._get_s_table().size() == 4u, "setting the number of segments");
    s.reserve(10);
    sx_check(s.empty(), "reserve");
    sx_reach("end");
}
