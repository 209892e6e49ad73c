// Failures: any operation on the coefficients and keys (copies included) may throw, once, at any point of any operation.
#define SX_FAULTS
#include <cstdlib>
#include <new>
#include "poly.hpp"
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/power_series/power_series.hpp>

#if defined(SX_SYMBOLIC)
// The hash tables of the cache of powers have one bucket.
struct sx_bi {
    bool b;
    std::size_t n;
};
extern "C" __attribute__((used)) sx_bi
sxo__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, std::size_t, std::size_t, std::size_t)
{
    return {false, 0};
}
extern "C" __attribute__((used)) std::size_t sxo__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, std::size_t)
{
    return 1;
}
#endif

// Allocations may fail, too (in the entry points that ask for it).
static bool alloc_faults = false;
static void may_fail()
{
    if (alloc_faults && tst::fault_armed) {
        tst::fault_armed = false;
        if (sx_choose("allocation", 2)) {
            throw std::bad_alloc{};
        }
        tst::fault_armed = true;
    }
}
#if defined(SX_SYMBOLIC)
extern "C" __attribute__((used)) void *sxo__Znwm(std::size_t n)
{
    may_fail();
    return std::malloc(n);
}
#else
void *operator new(std::size_t n)
{
    may_fail();
    return std::malloc(n ? n : 1u);
}
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
#endif

namespace tst
{
inline z8 diff(const z8 &, const std::string &)
{
    may_throw();
    return z8(0);
}
template <typename U>
inline zw<U> operator*(const zw<U> &a, const int &b)
{
    may_throw();
    zw<U> r;
    r.v = static_cast<U>(static_cast<unsigned>(a.v) * static_cast<unsigned>(b));
    return r;
}
inline z8 operator/(const z8 &a, const int &b)
{
    may_throw();
    z8 r;
    r.v = static_cast<std::uint8_t>((a.v >> (b & 3)) & ~static_cast<unsigned>(b));
    return r;
}
inline std::pair<int, tk> monomial_diff(const tk &k, const symbol_idx &i, const symbol_set &)
{
    may_throw();
    tk r;
    for (unsigned j = 0; j < 3u; ++j) {
        r.e[j] = k.e[j];
    }
    r.e[i] = sx::ite<std::int8_t>(k.e[i] == 0, 0, static_cast<std::int8_t>(k.e[i] - 1));
    return {k.e[i], std::move(r)};
}
inline std::pair<int, tk> monomial_integrate(const tk &k, const symbol_idx &i, const symbol_set &)
{
    may_throw();
    tk r;
    for (unsigned j = 0; j < 3u; ++j) {
        r.e[j] = k.e[j];
    }
    r.e[i] = static_cast<std::int8_t>(k.e[i] + 1);
    return {k.e[i] + 1, std::move(r)};
}
inline std::pair<z8, tk> monomial_subs(const tk &k, const symbol_idx_map<z8> &m, const symbol_set &)
{
    may_throw();
    tk r;
    for (unsigned j = 0; j < 3u; ++j) {
        r.e[j] = k.e[j];
    }
    z8 c;
    for (const auto &p : m) {
        c.v = static_cast<std::uint8_t>(c.v + p.second.v + static_cast<std::uint8_t>(r.e[p.first]));
        r.e[p.first] = 0;
    }
    return {std::move(c), std::move(r)};
}
inline z8 key_evaluate(const tk &k, const symbol_idx_map<z8> &m, const symbol_set &)
{
    may_throw();
    z8 r;
    for (const auto &p : m) {
        r.v = static_cast<std::uint8_t>(r.v + p.second.v + static_cast<std::uint8_t>(k.e[p.first]));
    }
    return r;
}
inline z8 pow(const z8 &c, const long &)
{
    may_throw();
    z8 r;
    r.v = c.v;
    return r;
}
inline void key_trim_identify(std::vector<int> &v, const tk &k, const symbol_set &ss)
{
    may_throw();
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (k.e[i] != 0) {
            v[i] = 0;
        }
    }
}
inline tk key_trim(const tk &k, const symbol_idx_set &si, const symbol_set &ss)
{
    may_throw();
    tk r;
    unsigned j = 0;
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (si.find(i) == si.end()) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}
inline z8 trim(const z8 &c) { return c; }
} // namespace tst

using ps8 = p_series<tk, z8>;

// Runs f, in which any one operation may fail, or none. Did it fail?
template <typename F>
static bool failed(F &&f)
{
    bool r = false;
    tst::fault_armed = true;
    try {
        f();
    } catch (const tst::fault &) {
        r = true;
    } catch (const std::bad_alloc &) {
        sx_check(alloc_faults, "a failure of our own");
        r = true;
    }
    // A failure is reported, and nothing else is.
    sx_check(tst::fault_armed == !r, "the failure is reported");
    tst::fault_armed = false;
    return r;
}
// The state of an object that an operation might have changed when it failed: a moved-from one has no tables, and may be
// assigned and destroyed; any other one is a canonical series that can be used.
template <typename S>
static void usable(S &x, bool ours = true)
{
    if (!x._get_s_table().empty()) {
        std::vector<const typename S::table_type::value_type *> v;
        sx_canonical(x, v);
        if constexpr (std::is_same_v<series_tag_t<S>, series_tag_t<ps8>>) {
            // Truncated as its tag says.
            const auto &t = get_truncation(x);
            for (auto p : v) {
                int d = 0;
                for (unsigned i = 0; i < x.get_symbol_set().size(); ++i) {
                    const auto &s = *x.get_symbol_set().nth(i);
                    d += t.index() == 1u || (t.index() == 2u && std::get<2>(t).second.count(s)) ? p->first.e[i] : 0;
                }
                if (t.index() == 1u) {
                    sx_check(d <= std::get<1>(t), "truncated");
                } else if (t.index() == 2u) {
                    sx_check(d <= std::get<2>(t).first, "truncated");
                }
            }
        }
        // Cleared and filled again.
        const auto seg = x.get_s_size();
        x.clear();
        sx_check(x.empty() && x.get_symbol_set().empty(), "cleared");
        sx_check(x.get_s_size() == seg, "cleared");
        z8 c;
        c.v = 3;
        x.add_term(tk{}, c);
        sx_verify(x, model{{tk{}, 3u}}, "");
    } else {
        sx_check(ours, "the state after a failure");
    }
    x = S{};
    sx_verify(x, {}, "");
}

// The two operands of an operation.
struct rel {
    const char *a, *b, *u;
};
static const rel rels[4] = {{"a", "a", "a"}, {"a", "ab", "ab"}, {"ab", "b", "ab"}, {"a", "b", "ab"}};

// ------------------------------------------------------------------------- sums and differences
template <typename S>
static void t_sum(unsigned na, unsigned nb, unsigned ga, unsigned gb, unsigned nr = 4)
{
    const auto &r = rels[sx_choose("symbols", nr)];
    model ma, mb;
    S x = sx_series<S>(ma, na, r.a, ga);
    S y = sx_series<S>(mb, nb, r.b, gb);
    const auto u = extend(ma, r.a, r.u), v = extend(mb, r.b, r.u);
    const bool sub = sx_choose("sub", 2);
    const auto how = sx_choose("operands", 4);
    S z;
    const bool f = failed([&]() {
        if (how == 0) {
            z = sub ? x - y : x + y;
        } else if (how == 1) {
            z = sub ? std::move(x) - y : std::move(x) + y;
        } else if (how == 2) {
            z = sub ? x - std::move(y) : x + std::move(y);
        } else {
            z = sub ? std::move(x) - std::move(y) : std::move(x) + std::move(y);
        }
    });
    if (how == 0 || how == 2) {
        sx_verify(x, ma, r.a);
    }
    if (how == 0 || how == 1) {
        sx_verify(y, mb, r.b);
    }
    if (f) {
        sx_verify(z, {}, "");
        usable(x);
        usable(y);
        sx_reach("failed");
    } else {
        sx_verify(z, sub ? u - v : u + v, r.u);
        sx_reach("not failed");
    }
}
HARNESS(sum_1_1) { t_sum<s8>(1, 1, 0, 0); }
HARNESS(sum_seg) { t_sum<s8>(1, 1, 1, 0); }
HARNESS(sum_2_1) { t_sum<s8>(2, 1, 0, 1); }
HARNESS(sum_1_2) { t_sum<s8>(1, 2, 0, 0, 2); }
#if defined(SX_THOROUGH)
HARNESS(sum_1_2_seg) { t_sum<s8>(1, 2, 1, 1); }
#endif

template <typename S>
static void t_in_place(unsigned na, unsigned nb, unsigned ga, unsigned gb, unsigned nr = 4)
{
    const auto &r = rels[sx_choose("symbols", nr)];
    model ma, mb;
    S x = sx_series<S>(ma, na, r.a, ga);
    S y = sx_series<S>(mb, nb, r.b, gb);
    const auto u = extend(ma, r.a, r.u), v = extend(mb, r.b, r.u);
    const bool sub = sx_choose("sub", 2), move = sx_choose("move", 2);
    const bool f = failed([&]() {
        if (move) {
            sub ? x -= std::move(y) : x += std::move(y);
        } else {
            sub ? x -= y : x += y;
        }
    });
    if (!move) {
        sx_verify(y, mb, r.b);
    }
    if (f) {
        usable(x);
        usable(y);
        sx_reach("failed");
    } else {
        sx_verify(x, sub ? u - v : u + v, r.u);
        sx_reach("not failed");
    }
}
HARNESS(in_place_1_1) { t_in_place<s8>(1, 1, 0, 0); }
HARNESS(in_place_seg) { t_in_place<s8>(1, 1, 0, 1); }
HARNESS(in_place_2_1) { t_in_place<s8>(2, 1, 0, 0); }
HARNESS(in_place_1_2) { t_in_place<s8>(1, 2, 0, 1, 2); }
#if defined(SX_THOROUGH)
HARNESS(in_place_2_1_seg) { t_in_place<s8>(2, 1, 1, 0); }
HARNESS(in_place_1_2_seg) { t_in_place<s8>(1, 2, 1, 1); }
#endif

// ------------------------------------------------------------------------- with scalars; changes of sign; new series
static void t_scalar(unsigned n, unsigned seg)
{
    model m, w;
    s8 x = sx_series<s8>(m, n, "ab", seg);
    const z8 c = sx_cf<z8>();
    const auto op = sx_choose("op", 8);
    const bool move = sx_choose("move", 2);
    s8 z;
    if (op == 7) {
        model mz;
        z = sx_series<s8>(mz, 1, "b", 1);
    }
    const bool f = failed([&]() {
        switch (op) {
            case 0: z = move ? std::move(x) * c : x * c; break;
            case 1: z = move ? c * std::move(x) : c * x; break;
            case 2: z = move ? std::move(x) / c : x / c; break;
            case 3: z = move ? std::move(x) + c : x + c; break;
            case 4: z = move ? c - std::move(x) : c - x; break;
            case 5: z = move ? -std::move(x) : -x; break;
            case 6: z = move ? s8(std::move(x)) : s8(x); break;
            default: z = x; break;
        }
    });
    const model k{{tk{}, c.v}};
    for (const auto &t : m) {
        w.push_back({t.k, op == 2 ? t.c >> (c.v & 7u) : op < 2 ? t.c * c.v : t.c});
    }
    const auto want = op == 3 ? w + k : op == 4 ? k - w : op == 5 ? -w : w;
    if (!move || op == 7) {
        sx_verify(x, m, "ab");
    }
    if (f) {
        if (op != 7) {
            sx_verify(z, {}, "");
        }
        usable(z, false);
        usable(x);
        sx_reach("failed");
    } else {
        sx_verify(z, want, "ab");
        sx_reach("not failed");
    }
}
HARNESS(scalar) { t_scalar(1, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(scalar_2) { t_scalar(2, 0); }
static void t_scalar_in_place(unsigned n, unsigned seg)
{
    model m;
    s8 x = sx_series<s8>(m, n, "ab", seg);
    const z8 c = sx_cf<z8>();
    const auto op = sx_choose("op", 5);
    const bool f = failed([&]() {
        switch (op) {
            case 0: x *= c; break;
            case 1: x /= c; break;
            case 2: x += c; break;
            case 3: x -= c; break;
            default: obake::negate(x); break;
        }
    });
    if (f) {
        usable(x);
        sx_reach("failed");
    } else {
        const model k{{tk{}, c.v}};
        model w;
        for (const auto &t : m) {
            w.push_back({t.k, op == 0 ? t.c * c.v : op == 1 ? t.c >> (c.v & 7u) : t.c});
        }
        sx_verify(x, op == 2 ? m + k : op == 3 ? m - k : op == 4 ? -m : w, "ab");
        sx_reach("not failed");
    }
}
HARNESS(scalar_in_place) { t_scalar_in_place(1, static_cast<unsigned>(sx_choose("seg", 2))); }
HARNESS(scalar_in_place_2) { t_scalar_in_place(2, 0); }
// Conversions between types of coefficients, sums and differences of different types.
HARNESS(mixed)
{
    model ma, mb;
    s16 x = sx_series<s16>(ma, 1, "a", static_cast<unsigned>(sx_choose("seg", 2)));
    s8 y = sx_series<s8>(mb, 1, "a");
    const auto op = sx_choose("op", 5);
    const bool move = sx_choose("move", 2);
    s8 z;
    const bool f = failed([&]() {
        switch (op) {
            case 0: z = move ? s8(std::move(x)) : s8(x); break;
            case 1: z = move ? std::move(x) + y : x + y; break;
            case 2: z = move ? y - std::move(x) : y - x; break;
            case 3: y += move ? s8(std::move(x)) : s8(x); break;
            default: move ? y -= std::move(x) : y -= x; break;
        }
    });
    if (!move) {
        sx_verify(x, ma, "a");
    }
    if (op < 3) {
        sx_verify(y, mb, "a");
    }
    if (f) {
        sx_verify(z, {}, "");
        usable(x);
        usable(y);
        sx_reach("failed");
    } else {
        switch (op) {
            case 0: sx_verify(z, ma, "a"); break;
            case 1: sx_verify(z, ma + mb, "a"); break;
            case 2: sx_verify(z, mb - ma, "a"); break;
            case 3: sx_verify(y, ma + mb, "a"); break;
            default: sx_verify(y, mb - ma, "a"); break;
        }
        sx_reach("not failed");
    }
}
// Adding terms.
HARNESS(terms)
{
    model m;
    s8 x = sx_series<s8>(m, 1, "a", static_cast<unsigned>(sx_choose("seg", 2)));
    const tk k = sx_tk(1);
    const z8 c = sx_cf<z8>();
    const bool sub = sx_choose("sub", 2), move = sx_choose("move", 2);
    const bool f = failed([&]() {
        if (move) {
            z8 d;
            d.v = c.v;
            sub ? x.add_term<false>(k, std::move(d)) : x.add_term(k, std::move(d));
        } else {
            sub ? x.add_term<false>(k, c) : x.add_term(k, c);
        }
    });
    if (f) {
        usable(x);
        sx_reach("failed");
    } else {
        const model t{{k, c.v}};
        sx_verify(x, sub ? m - t : m + t, "a");
        sx_reach("not failed");
    }
}

// Failing allocations.
static void no_memory() { alloc_faults = true; }
HARNESS(alloc_sum)
{
    no_memory();
    t_sum<s8>(1, 1, 0, 1, 2);
}
HARNESS(alloc_in_place)
{
    no_memory();
    t_in_place<s8>(1, 1, 1, 0);
}
HARNESS(alloc_scalar)
{
    no_memory();
    t_scalar(1, 1);
}
HARNESS(alloc_scalar_in_place)
{
    no_memory();
    t_scalar_in_place(1, 1);
}

// ------------------------------------------------------------------------- products
template <typename P, typename F>
static void t_mul(unsigned na, unsigned nb, const rel &r, F mul)
{
    model ma, mb;
    const P x = sx_series<P>(ma, na, r.a, static_cast<unsigned>(sx_choose("seg", 2)));
    const P y = sx_series<P>(mb, nb, r.b);
    const auto u = extend(ma, r.a, r.u), v = extend(mb, r.b, r.u);
    sx_assume(all_fit(u, v));
    P z;
    const bool f = failed([&]() { mul(z, x, y); });
    sx_verify(x, ma, r.a);
    sx_verify(y, mb, r.b);
    if (f) {
        usable(z, false);
        sx_reach("failed");
    } else {
        sx_verify(z, u * v, r.u);
        sx_reach("not failed");
    }
}
template <typename P>
static void product(P &z, const P &x, const P &y)
{
    z = x * y;
}
HARNESS(mul_1_1) { t_mul<p8>(1, 1, rels[sx_choose("symbols", 4)], product<p8>); }
HARNESS(mul_2_1) { t_mul<p8>(2, 1, rels[0], product<p8>); }
HARNESS(mul_fma) { t_mul<pf8>(2, 1, rels[0], product<pf8>); }
#if defined(SX_THOROUGH)
HARNESS(mul_2_2) { t_mul<p8>(2, 2, rels[0], product<p8>); }
#endif
HARNESS(alloc_mul)
{
    no_memory();
    t_mul<p8>(1, 1, rels[sx_choose("symbols", 2)], product<p8>);
}
// The multi-threaded algorithm.
template <typename P>
static void mt(P &z, const P &x, const P &y)
{
    z.set_symbol_set_fw(x.get_symbol_set_fw());
    polynomials::detail::poly_mul_impl_mt_hm(z, x, y);
}
HARNESS(mul_mt)
{
    sx_cores = 2;
    sx_split(static_cast<int>(1 + sx_choose("split", 2)));
    t_mul<p8>(2, 1, rels[0], mt<p8>);
}
HARNESS(mul_mt_fma)
{
    sx_cores = 2;
    sx_split(1);
    t_mul<pf8>(1, 2, rels[0], mt<pf8>);
}
HARNESS(alloc_mul_mt)
{
    no_memory();
    sx_cores = 2;
    sx_split(1);
    t_mul<p8>(1, 1, rels[0], mt<p8>);
}
HARNESS(mul_truncated)
{
    model ma, mb;
    const p8 x = sx_series<p8>(ma, 2, "a");
    const p8 y = sx_series<p8>(mb, 1, "a");
    sx_assume(all_fit(ma, mb));
    const int limit = sx::sym<std::int16_t>("limit");
    p8 z;
    const bool f = failed([&]() { z = truncated_mul(x, y, limit); });
    sx_verify(x, ma, "a");
    sx_verify(y, mb, "a");
    sx_verify(z, f ? model{} : [&]() {
        auto r = ma * mb;
        for (auto &t : r) {
            t.c = sx::ite<std::uint32_t>(t.k.e[0] <= limit, t.c, 0u);
        }
        return r;
    }(), z.empty() ? (f ? "" : "a") : "a");
    sx_reach("end");
}

// ------------------------------------------------------------------------- the other operations
template <typename F>
static void t_other(unsigned n, unsigned seg, F op)
{
    model m;
    p8 x = sx_series<p8>(m, n, "ab", seg);
    for (const auto &t : m) {
        sx_assume(sx_and(sx_and(t.k.e[0] > -100, t.k.e[0] < 100), sx_and(t.k.e[1] > -100, t.k.e[1] < 100)));
    }
    const bool f = failed([&]() { op(std::as_const(x)); });
    sx_verify(x, m, "ab");
    sx_reach(f ? "failed" : "not failed");
}
HARNESS(diff)
{
    t_other(static_cast<unsigned>(1 + sx_choose("n", 2)), 0, [](const p8 &x) { (void)obake::diff(x, "b"); });
}
HARNESS(integrate)
{
    t_other(static_cast<unsigned>(1 + sx_choose("n", 2)), 0, [](const p8 &x) { (void)obake::integrate(x, "b"); });
}
HARNESS(integrate_new)
{
    t_other(1, 1, [](const p8 &x) { (void)obake::integrate(x, "c"); });
}
HARNESS(subs)
{
    t_other(static_cast<unsigned>(1 + sx_choose("n", 2)), 0, [](const p8 &x) { (void)obake::subs(x, symbol_map<z8>{{"b", z8(3)}}); });
}
HARNESS(evaluate)
{
    t_other(static_cast<unsigned>(1 + sx_choose("n", 2)), 0,
            [](const p8 &x) { (void)obake::evaluate(x, symbol_map<z8>{{"a", z8(2)}, {"b", z8(3)}}); });
}
HARNESS(trim)
{
    t_other(static_cast<unsigned>(1 + sx_choose("n", 2)), 1, [](const p8 &x) { (void)obake::trim(x); });
}
HARNESS(filtered)
{
    t_other(2, 1, [](const p8 &x) {
        (void)obake::filtered(x, [](const auto &) {
            tst::may_throw();
            return true;
        });
    });
}
HARNESS(degree)
{
    t_other(2, 1, [](const p8 &x) { (void)obake::degree(x); });
}
HARNESS(equal)
{
    model m;
    p8 y = sx_series<p8>(m, 1, "bc");
    t_other(1, 0, [&y](const p8 &x) { (void)(x == y); });
    sx_verify(y, m, "bc");
}
HARNESS(filter)
{
    model m;
    p8 x = sx_series<p8>(m, 2, "a", static_cast<unsigned>(sx_choose("seg", 2)));
    const auto lim = sx::sym<std::int8_t>("limit");
    const auto op = sx_choose("op", 3);
    const bool f = failed([&]() {
        if (op == 0) {
            obake::filter(x, [lim](const auto &t) {
                tst::may_throw();
                return t.first.e[0] > lim;
            });
        } else if (op == 1) {
            obake::truncate_degree(x, int(lim));
        } else {
            obake::truncate_p_degree(x, int(lim), symbol_set{"a"});
        }
    });
    // Each term is either there or it had to go.
    std::vector<const p8::table_type::value_type *> v;
    sx_canonical(x, v);
    const tk p = sx_tk(1);
    unsigned got = 0;
    for (auto t : v) {
        got += sx::ite<std::uint32_t>(t->first == p, t->second.v, 0u);
    }
    const auto want = coef_of(m, p) & 0xffu;
    const bool keep = op == 0 ? p.e[0] > lim : p.e[0] <= lim;
    sx_check(sx_or(got == want, sx_and(got == 0u, sx_not(keep))), "terms to be kept are kept");
    if (!f) {
        sx_check(sx_or(got == 0u, keep), "terms to be removed are removed");
    }
    usable(x);
    sx_reach(f ? "failed" : "not failed");
}

// Powers, and the cache of powers, after a failure.
HARNESS(pow)
{
    model m;
    const p8 x = sx_series<p8>(m, 1, "a");
    sx_assume(!tst::key_is_one(m[0].k, symbol_set{}));
    sx_assume(sx_and(m[0].k.e[0] > -30, m[0].k.e[0] < 30));
    const long e0 = static_cast<long>(sx_choose("e0", 4)), e1 = 1 + static_cast<long>(sx_choose("e1", 3));
    const bool f = failed([&]() { (void)obake::pow(x, e0); });
    sx_verify(x, m, "a");
    model w{{tk{}, 1u}};
    for (long i = 0; i < e1; ++i) {
        w = w * m;
    }
    sx_verify(obake::pow(x, e1), w, "a");
    sx_reach(f ? "failed" : "not failed");
}
HARNESS(pow_2)
{
    model m;
    const p8 x = sx_series<p8>(m, 2, "a");
    for (const auto &t : m) {
        sx_assume(sx_and(t.k.e[0] > -30, t.k.e[0] < 30));
    }
    const bool f = failed([&]() { (void)obake::pow(x, 1l); });
    sx_verify(x, m, "a");
    sx_verify(obake::pow(x, 1l), m, "a");
    sx_reach(f ? "failed" : "not failed");
}

HARNESS(alloc_pow)
{
    no_memory();
    model m;
    const p8 x = sx_series<p8>(m, 1, "a");
    sx_assume(sx_and(m[0].k.e[0] > 0, m[0].k.e[0] < 30));
    const bool f = failed([&]() { (void)obake::pow(x, 2l); });
    sx_verify(x, m, "a");
    sx_verify(obake::pow(x, 2l), m * m, "a");
    sx_reach(f ? "failed" : "not failed");
}

// ------------------------------------------------------------------------- power series
static ps8 sx_ps(model &m, unsigned n, const char *ss, unsigned kind, int limit, unsigned seg)
{
    ps8 p = sx_series<ps8>(m, n, ss, seg);
    using trunc = power_series::detail::trunc_t<int>;
    for (const auto &t : m) {
        if (kind) {
            sx_assume((kind == 1 ? t.k.e[0] + t.k.e[1] + t.k.e[2] : t.k.e[0]) <= limit);
        }
    }
    p.tag().trunc = kind == 0 ? trunc() : kind == 1 ? trunc(limit) : trunc(std::pair{limit, symbol_set{"a"}});
    return p;
}
HARNESS(power_series)
{
    const auto &r = rels[sx_choose("symbols", 2)];
    const auto kind = static_cast<unsigned>(sx_choose("kind", 5));
    static const unsigned char kx[5] = {0, 1, 0, 1, 2}, ky[5] = {1, 0, 2, 1, 2};
    const int lim = sx::sym<std::int16_t>("limit");
    model ma, mb;
    ps8 x = sx_ps(ma, 1, r.a, kx[kind], lim, 0);
    ps8 y = sx_ps(mb, 1, r.b, ky[kind], lim, static_cast<unsigned>(sx_choose("seg", 2)));
    const auto u = extend(ma, r.a, r.u), v = extend(mb, r.b, r.u);
    sx_assume(all_fit(u, v));
    const auto op = sx_choose("op", 6);
    ps8 z;
    z.set_n_segments(1);
    const bool f = failed([&]() {
        switch (op) {
            case 0: z = x + y; break;
            case 1: z = x - std::move(y); break;
            case 2: z = std::move(x) + y; break;
            case 3: x += y; break;
            case 4: x -= std::move(y); break;
            default: z = x * y; break;
        }
    });
    if (op == 0 || op == 1 || op == 5) {
        sx_verify(x, ma, r.a);
        sx_check(get_truncation(x).index() == kx[kind], "truncation of the operand");
    }
    if (op == 0 || op == 2 || op == 3 || op == 5) {
        sx_verify(y, mb, r.b);
        sx_check(get_truncation(y).index() == ky[kind], "truncation of the operand");
    }
    usable(x);
    usable(y);
    usable(z, false);
    sx_reach(f ? "failed" : "not failed");
}
// With a scalar, whose degree (zero) may be beyond the limit.
HARNESS(power_series_scalar)
{
    model m;
    const int lim = sx::sym<std::int16_t>("limit");
    const auto kind = static_cast<unsigned>(sx_choose("kind", 3));
    ps8 x = sx_ps(m, 1, "a", kind, lim, static_cast<unsigned>(sx_choose("seg", 2)));
    const z8 c = sx_cf<z8>();
    const auto op = sx_choose("op", 5);
    ps8 z;
    const bool f = failed([&]() {
        switch (op) {
            case 0: z = x + c; break;
            case 1: z = x * c; break;
            case 2: x += c; break;
            case 3: x -= c; break;
            default: x *= c; break;
        }
    });
    if (op < 2) {
        sx_verify(x, m, "a");
        sx_check(get_truncation(x).index() == kind, "truncation of the operand");
    }
    usable(x);
    usable(z, false);
    sx_reach(f ? "failed" : "not failed");
}
HARNESS(set_truncation)
{
    model m;
    const int lim = sx::sym<std::int16_t>("limit"), l2 = sx::sym<std::int16_t>("limit");
    ps8 x = sx_ps(m, 2, "a", static_cast<unsigned>(sx_choose("kind", 3)), lim, static_cast<unsigned>(sx_choose("seg", 2)));
    const bool part = sx_choose("part", 2);
    const bool f = failed([&]() { part ? set_truncation(x, l2, symbol_set{"a"}) : set_truncation(x, l2); });
    usable(x, false);
    sx_reach(f ? "failed" : "not failed");
}
HARNESS(alloc_power_series)
{
    no_memory();
    model ma, mb;
    const int lim = sx::sym<std::int16_t>("limit");
    const bool first = sx_choose("first", 2);
    ps8 x = sx_ps(ma, 1, "a", first ? 2 : 0, lim, 0);
    ps8 y = sx_ps(mb, 1, "b", first ? 0 : 2, lim, 0);
    const bool f = failed([&]() { x += y; });
    sx_verify(y, mb, "b");
    usable(x);
    sx_reach(f ? "failed" : "not failed");
}
HARNESS(power_series_pow)
{
    model m;
    const int lim = sx::sym<std::int16_t>("limit");
    const ps8 x = sx_ps(m, 1, "a", 1, lim, 0);
    sx_assume(!tst::key_is_one(m[0].k, symbol_set{}));
    sx_assume(sx_and(m[0].k.e[0] > 0, m[0].k.e[0] < 30));
    const bool f = failed([&]() { (void)obake::pow(x, 2l); });
    sx_verify(x, m, "a");
    auto w = m * m;
    w[0].c = sx::ite<std::uint32_t>(w[0].k.e[0] <= lim, w[0].c, 0u);
    const auto r = obake::pow(x, 2l);
    sx_verify(r, w, "a");
    sx_check(get_truncation(r).index() == 1u, "truncation of the power");
    sx_reach(f ? "failed" : "not failed");
}
