// Saving and loading: what is loaded is what was saved, whatever the object loaded into held, and an archive that fails
// leaves an empty object.
#include "poly.hpp"
#include <boost/mpl/bool.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/power_series/power_series.hpp>

namespace tst
{
template <class Ar>
inline void serialize(Ar &ar, tk &k, unsigned)
{
    ar &k.e[0];
    ar &k.e[1];
    ar &k.e[2];
}
template <class Ar, typename U>
inline void serialize(Ar &ar, zw<U> &c, unsigned)
{
    ar &c.v;
}
} // namespace tst

// ------------------------------------------------------------------------- archives
struct item {
    unsigned type; // size and signedness
    std::uint64_t v;
};
struct failure {
};
using buffer = std::vector<item>;
template <typename T>
constexpr unsigned type_code = static_cast<unsigned>(sizeof(T)) * 2u + (std::is_signed_v<T> ? 1u : 0u);
struct oar {
    using is_saving = boost::mpl::bool_<true>;
    using is_loading = boost::mpl::bool_<false>;
    buffer &b;
    template <typename T>
    oar &operator<<(const T &x)
    {
        if constexpr (std::is_arithmetic_v<T>) {
            b.push_back({type_code<T>, static_cast<std::uint64_t>(x)});
        } else if constexpr (std::is_same_v<T, std::string>) {
            b.push_back({1000u, x.size()});
            for (const char c : x) {
                b.push_back({1001u, static_cast<std::uint64_t>(static_cast<unsigned char>(c))});
            }
        } else {
            boost::serialization::serialize_adl(*this, const_cast<T &>(x), 0u);
        }
        return *this;
    }
    template <typename T>
    oar &operator&(const T &x)
    {
        return *this << x;
    }
};
struct iar {
    using is_saving = boost::mpl::bool_<false>;
    using is_loading = boost::mpl::bool_<true>;
    const buffer &b;
    std::size_t fail_at = ~std::size_t(0);
    std::size_t pos = 0;
    std::uint64_t next(unsigned type)
    {
        if (pos == fail_at) {
            throw failure{};
        }
        sx_check(pos < b.size() && b[pos].type == type, "read what was written");
        return b[pos++].v;
    }
    template <typename T>
    iar &operator>>(T &x)
    {
        if constexpr (std::is_arithmetic_v<T>) {
            x = static_cast<T>(next(type_code<T>));
        } else if constexpr (std::is_same_v<T, std::string>) {
            const auto n = next(1000u);
            x.clear();
            for (std::uint64_t i = 0; i < n; ++i) {
                x.push_back(static_cast<char>(next(1001u)));
            }
        } else {
            boost::serialization::serialize_adl(*this, x, 0u);
        }
        return *this;
    }
    template <typename T>
    iar &operator&(T &x)
    {
        return *this >> x;
    }
    template <typename T>
    iar &operator&(const boost::serialization::nvp<T> &x)
    {
        return *this >> x.value();
    }
    void reset_object_address(const void *, const void *) {}
};
template <typename T>
static void store(buffer &b, const T &x)
{
    oar o{b};
    o << x;
}
template <typename T>
static void fetch(const buffer &b, T &x)
{
    iar i{b};
    i >> x;
    sx_check(i.pos == b.size(), "read all that was written");
}

// ------------------------------------------------------------------------- symbol sets
static const char *const some_sets[] = {"", "a", "abc", "xz"};
HARNESS(symbols)
{
    const auto s = sx_ss(some_sets[sx_choose("set", 4)]);
    auto t = sx_ss(some_sets[sx_choose("before", 4)]);
    buffer b;
    store(b, s);
    fetch(b, t);
    sx_check(t == s, "the set that was saved");
    sx_reach("end");
}
HARNESS(symbols_names)
{
    std::string n;
    for (unsigned i = 0; i < 3u; ++i) {
        n.push_back(static_cast<char>(sx::sym<char>("c")));
    }
    const symbol_set s{n};
    symbol_set t{"abc", "d"};
    buffer b;
    store(b, s);
    fetch(b, t);
    sx_check(t.size() == 1u && t.begin()->size() == 3u, "size");
    sx_check(*t.begin() == n, "name");
    sx_reach("end");
}

// ------------------------------------------------------------------------- monomials
template <typename T>
static void packed()
{
    const packed_monomial<T> m(sx::sym<T>("v"));
    packed_monomial<T> n(sx::sym<T>("w"));
    buffer b;
    store(b, m);
    fetch(b, n);
    sx_check(n == m, "the monomial that was saved");
    sx_check(n.get_value() == m.get_value(), "its value");
    sx_reach("end");
}
HARNESS(packed_i32) { packed<std::int32_t>(); }
HARNESS(packed_u32) { packed<std::uint32_t>(); }
HARNESS(packed_i64) { packed<std::int64_t>(); }
HARNESS(packed_u64) { packed<std::uint64_t>(); }
template <typename T, unsigned P>
static void d_packed()
{
    using M = d_packed_monomial<T, P>;
    const auto make = [](const char *name, std::size_t n) {
        M m;
        for (std::size_t i = 0; i < n; ++i) {
            m._container().push_back(sx::sym<T>(name));
        }
        return m;
    };
    const M m = make("v", sx_choose("n", 4));
    M n = make("w", sx_choose("before", 4));
    buffer b;
    store(b, m);
    fetch(b, n);
    sx_check(n._container().size() == m._container().size(), "number of packs");
    for (std::size_t i = 0; i < m._container().size(); ++i) {
        sx_check(n._container()[i] == m._container()[i], "packs");
    }
    sx_reach("end");
}
HARNESS(d_packed_i32) { d_packed<std::int32_t, 2>(); }
HARNESS(d_packed_u64) { d_packed<std::uint64_t, 3>(); }

// ------------------------------------------------------------------------- series
using ps8 = p_series<tk, z8>;
template <typename S>
static void roundtrip(const char *ss, unsigned n, unsigned seg, const char *old_ss, unsigned old_n, unsigned old_seg)
{
    model m, old;
    const S x = sx_series<S>(m, n, ss, seg);
    S y = sx_series<S>(old, old_n, old_ss, old_seg);
    buffer b;
    store(b, x);
    fetch(b, y);
    sx_verify(y, m, ss);
    sx_check(y.get_s_size() == seg, "segmentation");
    sx_verify(x, m, ss);
    // It can be used.
    y.clear_terms();
    sx_check(y.get_s_size() == seg && y.empty(), "usable");
    sx_reach("end");
}
HARNESS(series) { roundtrip<p8>("ab", static_cast<unsigned>(sx_choose("n", 4)), 0, "c", static_cast<unsigned>(sx_choose("old", 2)), 0); }
HARNESS(series_seg) { roundtrip<p8>("ab", static_cast<unsigned>(sx_choose("n", 2)), static_cast<unsigned>(sx_choose("seg", 3)), "abc", 1, static_cast<unsigned>(sx_choose("old", 2))); }
HARNESS(series_seg_2) { roundtrip<p8>("a", 2, 1, "ab", 0, 2); }
HARNESS(series_no_symbols) { roundtrip<p8>("", static_cast<unsigned>(sx_choose("n", 2)), 0, "ab", 1, 1); }

// An archive that fails at any point.
HARNESS(series_failure)
{
    model m, old;
    const auto seg = static_cast<unsigned>(sx_choose("seg", 2));
    const p8 x = sx_series<p8>(m, static_cast<unsigned>(sx_choose("n", 3)), "ab", seg);
    p8 y = sx_series<p8>(old, 1, "c", 1);
    buffer b;
    store(b, x);
    iar i{b};
    i.fail_at = sx_choose("where", b.size());
    bool failed = false;
    try {
        i >> y;
    } catch (const failure &) {
        failed = true;
    }
    sx_check(failed, "the failure is reported");
    sx_verify(y, model{}, "");
    // It can be used.
    fetch(b, y);
    sx_verify(y, m, "ab");
    sx_reach("end");
}

// Coefficients that are series.
HARNESS(nested)
{
    using pp = polynomial<tk, p8>;
    model m[2], mk;
    pp x, y;
    x.set_symbol_set(sx_ss("a"));
    const tk k[2] = {sx_tk(1), sx_tk(1)};
    sx_assume(k[0] != k[1]);
    // One coefficient is larger than the other.
    const unsigned n[2] = {static_cast<unsigned>(1 + sx_choose("n", 2)), 1};
    for (unsigned i = 0; i < 2u; ++i) {
        x.add_term(k[i], sx_series<p8>(m[i], n[i], i ? "c" : "b", i));
    }
    buffer b;
    store(b, x);
    fetch(b, y);
    sx_check(y.get_symbol_set() == sx_ss("a") && y.size() == 2u, "terms");
    for (unsigned i = 0; i < 2u; ++i) {
        const auto it = y.find(k[i]);
        sx_check(it != y.end(), "key");
        if (it != y.end()) {
            sx_verify(it->second, m[i], i ? "c" : "b");
        }
    }
    sx_reach("end");
}

// ------------------------------------------------------------------------- power series
using trunc_s = power_series::detail::trunc_t<int>;
static trunc_s sx_trunc(const char *name)
{
    switch (sx_choose(name, 3)) {
        case 0:
            return trunc_s();
        case 1:
            return trunc_s(sx::sym<int>(name));
        default:
            return trunc_s(std::pair{sx::sym<int>(name), sx_ss(some_sets[sx_choose("symbols", 4)])});
    }
}
static bool same(const trunc_s &a, const trunc_s &b)
{
    if (a.index() != b.index()) {
        return false;
    }
    if (a.index() == 1u) {
        return std::get<1>(a) == std::get<1>(b);
    }
    if (a.index() == 2u) {
        return sx_and(std::get<2>(a).first == std::get<2>(b).first, std::get<2>(a).second == std::get<2>(b).second);
    }
    return true;
}
HARNESS(truncation)
{
    const auto a = sx_trunc("a");
    auto c = sx_trunc("b");
    buffer b;
    store(b, a);
    fetch(b, c);
    sx_check(same(a, c), "the truncation that was saved");
    sx_reach("end");
}
HARNESS(truncation_index)
{
    auto c = sx_trunc("b");
    buffer b;
    const auto idx = sx::sym<std::size_t>("index");
    store(b, idx);
    sx_assume(idx > 2u);
    bool refused = false;
    iar i{b};
    try {
        i >> c;
    } catch (const std::invalid_argument &) {
        refused = true;
    }
    sx_check(refused, "unknown kinds of truncation are refused");
    sx_reach("end");
}
HARNESS(power_series)
{
    model m, old;
    const auto seg = static_cast<unsigned>(sx_choose("seg", 2));
    auto x = sx_series<ps8>(m, static_cast<unsigned>(sx_choose("n", 2)), "ab", seg);
    auto y = sx_series<ps8>(old, 1, "c");
    const auto t = sx_trunc("t");
    x.tag().trunc = t;
    y.tag().trunc = trunc_s(sx::sym<int>("u"));
    buffer b;
    store(b, x);
    iar i{b};
    i.fail_at = sx_choose("where", b.size() + 1u);
    try {
        i >> y;
        sx_check(i.pos == b.size(), "read all that was written");
        sx_verify(y, m, "ab");
        sx_check(same(y.tag().trunc.get(), t), "truncation");
        sx_check(x == y, "equal");
    } catch (const failure &) {
        sx_verify(y, model{}, "");
        sx_check(same(y.tag().trunc.get(), trunc_s()), "no truncation");
    }
    sx_check(same(x.tag().trunc.get(), t), "the original keeps its truncation");
    sx_reach("end");
}
