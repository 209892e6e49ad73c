// Degrees, trimming, filtering, additional symbols, sizes of series, and the generators of polynomials.
#include "poly.hpp"
#include <obake/byte_size.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/trim.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>

namespace tst
{
inline void key_trim_identify(std::vector<int> &v, const tk &k, const symbol_set &ss)
{
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (k.e[i] != 0) {
            v[i] = 0;
        }
    }
}
inline tk key_trim(const tk &k, const symbol_idx_set &si, const symbol_set &ss)
{
    tk r;
    unsigned j = 0;
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (si.find(i) == si.end()) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}
// Trimming a coefficient may change it.
inline std::uint8_t trim_mask = 0xff;
inline z8 trim(const z8 &c)
{
    z8 r;
    r.v = static_cast<std::uint8_t>(c.v & trim_mask);
    return r;
}
// Alleged sizes of the keys.
inline std::size_t byte_size(const tk &k) { return static_cast<std::size_t>(static_cast<unsigned char>(k.e[0])) + 3u; }

// Coefficients with a degree, in a type that may overflow together with the degrees of the keys.
using zd = zw<char16_t>;
inline int deg_of(char16_t v) { return sx::ite<int>((v & 0x80u) != 0u, 0x7fffffff - (v & 0x7f), static_cast<int>(v & 0x7fu) - 100); }
inline int degree(const zd &c) { return deg_of(c.v); }
inline int p_degree(const zd &c, const symbol_set &s)
{
    // Depends on which symbols are asked for.
    int r = deg_of(c.v);
    if (s.find("c") == s.end()) {
        r = r - 1;
    }
    return r;
}
// A key without degree and a coefficient with one.
struct nk {
    std::int8_t e = 0;
    nk() = default;
    explicit nk(const symbol_set &) {}
    friend bool operator==(const nk &a, const nk &b) { return a.e == b.e; }
    friend bool operator!=(const nk &a, const nk &b) { return a.e != b.e; }
};
inline std::size_t hash(const nk &k) { return static_cast<std::size_t>(k.e); }
inline bool key_is_zero(const nk &, const symbol_set &) { return false; }
inline bool key_is_one(const nk &k, const symbol_set &) { return k.e == 0; }
inline bool key_is_compatible(const nk &, const symbol_set &) { return true; }
inline void key_stream_insert(std::ostream &, const nk &, const symbol_set &) {}
} // namespace tst
using tst::zd;
using pd = polynomial<tk, zd>;
using sn = series<tst::nk, zd, tst::stag>;

// The symbols of mask among a, b, c and z.
static symbol_set names(unsigned mask)
{
    symbol_set r;
    for (unsigned i = 0; i < 4u; ++i) {
        if (mask & (1u << i)) {
            r.insert(r.end(), std::string(1, i == 3u ? 'z' : static_cast<char>('a' + i)));
        }
    }
    return r;
}
static int partial(const tk &k, const char *ss, unsigned mask)
{
    int r = 0;
    for (unsigned i = 0; ss[i]; ++i) {
        if (mask & (1u << (ss[i] - 'a'))) {
            r += k.e[i];
        }
    }
    return r;
}

// ------------------------------------------------------------------------- degrees
static std::int64_t max_of(const std::vector<std::int64_t> &v)
{
    std::int64_t r = v.empty() ? 0 : v[0];
    for (const auto x : v) {
        r = sx::ite<std::int64_t>(x > r, x, r);
    }
    return r;
}
static void deg(const char *ss, unsigned n, unsigned seg)
{
    model m;
    const p8 x = sx_series<p8>(m, n, ss, seg);
    const auto mask = static_cast<unsigned>(sx_choose("mask", 16));
    std::vector<std::int64_t> t, p;
    for (const auto &w : m) {
        t.push_back(w.k.e[0] + w.k.e[1] + w.k.e[2]);
        p.push_back(partial(w.k, ss, mask));
    }
    sx_check(obake::degree(x) == max_of(t), "degree");
    sx_check(obake::p_degree(x, names(mask)) == max_of(p), "partial degree");
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(degree) { deg("abc", static_cast<unsigned>(sx_choose("n", 4)), 0); }
HARNESS(degree_ac) { deg("ac", 2, 1); }
HARNESS(degree_no_symbols) { deg("", static_cast<unsigned>(sx_choose("n", 2)), 0); }

// The coefficients have degrees as well: the sum, or an overflow error.
static void deg_sum(const char *ss, unsigned n)
{
    model m;
    const pd x = sx_series<pd>(m, n, ss);
    const auto mask = static_cast<unsigned>(sx_choose("mask", 8));
    const bool partial_ = mask == 0u ? sx_choose("partial", 2) : true;
    std::vector<std::int64_t> d;
    bool fit = true;
    for (const auto &w : m) {
        std::int64_t s = partial_ ? partial(w.k, ss, mask) : w.k.e[0] + w.k.e[1] + w.k.e[2];
        std::int64_t c = tst::deg_of(static_cast<char16_t>(w.c));
        if (partial_ && !(mask & 4u)) {
            c -= 1;
        }
        s += c;
        d.push_back(s);
        fit = sx_and(fit, sx_and(s <= 0x7fffffffLL, s >= -0x80000000LL));
    }
    try {
        const int r = partial_ ? obake::p_degree(x, names(mask)) : obake::degree(x);
        sx_check(fit, "no overflow");
        sx_check(r == max_of(d), "degree of keys and coefficients");
    } catch (const std::overflow_error &) {
        sx_check(sx_not(fit), "overflow error only if a degree overflows");
    }
    sx_reach("end");
}
HARNESS(degree_sum) { deg_sum("ab", static_cast<unsigned>(sx_choose("n", 3))); }
HARNESS(degree_cf)
{
    sn x;
    x.set_symbol_set(sx_ss("a"));
    std::vector<std::int64_t> d, p;
    const auto mask = static_cast<unsigned>(sx_choose("mask", 16));
    const auto n = sx_choose("n", 3);
    std::int8_t last = 0;
    for (unsigned i = 0; i < n; ++i) {
        tst::nk k;
        k.e = sx::sym<std::int8_t>("e");
        const zd c = sx_cf<zd>();
        sx_assume(c.v != 0);
        sx_assume(i == 0u || k.e != last);
        last = k.e;
        x.add_term(k, c);
        d.push_back(tst::deg_of(c.v));
        p.push_back(tst::deg_of(c.v) - ((mask & 4u) ? 0 : 1));
    }
    sx_check(obake::degree(x) == max_of(d), "degree of the coefficients");
    sx_check(obake::p_degree(x, names(mask)) == max_of(p), "partial degree of the coefficients");
    sx_reach("end");
}
// The vectors of the degrees of given terms.
HARNESS(degree_vector)
{
    using term_t = series_term_t<p8>;
    std::vector<term_t> v;
    const auto n = sx_choose("n", 4);
    for (unsigned i = 0; i < n; ++i) {
        v.emplace_back(sx_tk(3), z8(1));
    }
    const auto ss = sx_ss("abc");
    const auto mask = static_cast<unsigned>(sx_choose("mask", 16));
    const bool par = sx_choose("parallel", 2);
    if (par) {
        sx_split(static_cast<int>(sx_choose("split", 3)));
    }
    const auto d = customisation::internal::make_degree_vector<p8>(v.cbegin(), v.cend(), ss, par);
    const auto p = customisation::internal::make_p_degree_vector<p8>(v.cbegin(), v.cend(), ss, names(mask), par);
    sx_check(d.size() == n && p.size() == n, "size");
    for (unsigned i = 0; i < n; ++i) {
        const tk &k = v[i].first;
        sx_check(d[i] == k.e[0] + k.e[1] + k.e[2], "degree of each term");
        sx_check(p[i] == partial(k, "abc", mask), "partial degree of each term");
    }
    sx_reach("end");
}

// ------------------------------------------------------------------------- trimming
static void t_trim(const char *ss, unsigned n, unsigned seg)
{
    model m;
    p8 x = sx_series<p8>(m, n, ss, seg);
    tst::trim_mask = sx::sym<std::uint8_t>("mask");
    const p8 r = sx_choose("move", 2) ? obake::trim(p8(x)) : obake::trim(x);
    // The symbols that are in use.
    std::string rs;
    std::vector<unsigned> idx;
    for (unsigned i = 0; ss[i]; ++i) {
        bool used = false;
        for (const auto &t : m) {
            used = sx_or(used, t.k.e[i] != 0);
        }
        if (used) {
            rs.push_back(ss[i]);
            idx.push_back(i);
        }
    }
    model want;
    for (const auto &t : m) {
        tk k;
        for (unsigned j = 0; j < idx.size(); ++j) {
            k.e[j] = t.k.e[idx[j]];
        }
        want.push_back({k, t.c & tst::trim_mask});
    }
    sx_verify(r, want, rs.c_str());
    sx_check(r.get_s_size() == x.get_s_size(), "segmentation");
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(trim) { t_trim("abc", static_cast<unsigned>(sx_choose("n", 3)), 0); }
HARNESS(trim_seg) { t_trim("ab", 1, 2); }
HARNESS(trim_seg_2) { t_trim("ac", 2, 1); }
HARNESS(trim_no_symbols) { t_trim("", static_cast<unsigned>(sx_choose("n", 2)), 0); }
// Coefficients that are polynomials are trimmed too.
HARNESS(trim_nested)
{
    using pp = polynomial<tk, p8>;
    model mc;
    const p8 c = sx_series<p8>(mc, 1, "bc");
    sx_assume(mc[0].k.e[1] == 0);
    sx_assume(mc[0].k.e[0] != 0);
    pp x;
    x.set_symbol_set(sx_ss("ad"));
    tk k = sx_tk(2);
    sx_assume(k.e[0] == 0);
    sx_assume(k.e[1] != 0);
    x.add_term(k, c);
    const pp r = obake::trim(x);
    sx_check(r.get_symbol_set() == sx_ss("d") && r.size() == 1u, "trimmed");
    sx_check(r.begin()->first.e[0] == k.e[1], "key");
    sx_verify(r.begin()->second, mc, "b");
    sx_reach("end");
}

// ------------------------------------------------------------------------- filtering
static void t_filter(const char *ss, unsigned n, unsigned seg)
{
    model m, want;
    p8 x = sx_series<p8>(m, n, ss, seg);
    const auto a = sx::sym<std::int8_t>("a");
    const auto b = sx::sym<std::uint8_t>("b");
    const auto keep = [a, b](const tk &k, std::uint32_t c) { return sx_or(k.e[0] > a, (c & b) != 0u); };
    for (const auto &t : m) {
        want.push_back({t.k, sx::ite<std::uint32_t>(keep(t.k, t.c), t.c, 0u)});
    }
    const auto f = [keep](const auto &t) { return keep(t.first, t.second.v); };
    if (sx_choose("in place", 2)) {
        obake::filter(x, f);
        sx_check(x.get_s_size() == seg, "segmentation");
        sx_verify(x, want, ss);
    } else {
        const auto r = obake::filtered(x, f);
        sx_check(r.get_s_size() == seg, "segmentation");
        sx_verify(r, want, ss);
        sx_verify(x, m, ss);
    }
    sx_reach("end");
}
HARNESS(filter) { t_filter("ab", static_cast<unsigned>(sx_choose("n", 4)), 0); }
HARNESS(filter_seg) { t_filter("a", 2, static_cast<unsigned>(1 + sx_choose("seg", 2))); }
HARNESS(filter_no_symbols) { t_filter("", static_cast<unsigned>(sx_choose("n", 2)), 0); }

// ------------------------------------------------------------------------- more symbols
static void t_add_symbols(const char *ss, unsigned n, unsigned seg)
{
    model m;
    const p8 x = sx_series<p8>(m, n, ss, seg);
    const auto mask = static_cast<unsigned>(sx_choose("mask", 8));
    const std::string s(ss);
    std::string u;
    for (char c = 'a'; c <= 'c'; ++c) {
        if (s.find(c) != std::string::npos || (mask & (1u << (c - 'a')))) {
            u.push_back(c);
        }
    }
    const auto r = obake::add_symbols(x, names(mask));
    sx_verify(r, extend(m, ss, u.c_str()), u.c_str());
    sx_check(r.get_s_size() == seg, "segmentation");
    sx_verify(x, m, ss);
    sx_reach("end");
}
HARNESS(add_symbols) { t_add_symbols("ac", static_cast<unsigned>(sx_choose("n", 3)), 0); }
HARNESS(add_symbols_b) { t_add_symbols("b", static_cast<unsigned>(sx_choose("n", 3)), 1); }
HARNESS(add_symbols_empty) { t_add_symbols("", static_cast<unsigned>(sx_choose("n", 2)), 0); }

// ------------------------------------------------------------------------- size in memory
HARNESS(size)
{
    model m;
    const auto seg = static_cast<unsigned>(sx_choose("seg", 3));
    if (seg) {
        sx_split(static_cast<int>(sx_choose("split", 3)));
    }
    const p8 x = sx_series<p8>(m, static_cast<unsigned>(sx_choose("n", 3)), "a", seg);
    tst::cf_byte_size = sx::sym<std::uint16_t>("size");
    std::size_t want = sizeof(p8) + (std::size_t(1) << seg) * sizeof(p8::table_type);
    for (const auto &t : m) {
        want += tst::byte_size(t.k) + tst::cf_byte_size + (sizeof(series_term_t<p8>) - sizeof(tk) - sizeof(z8));
    }
    sx_check(obake::byte_size(x) == want, "size in memory");
    sx_reach("end");
}

// ------------------------------------------------------------------------- generators
template <typename P, typename K, typename F>
static void generators(F exponent)
{
    const auto mask = static_cast<unsigned>(sx_choose("mask", 8));
    const auto ss = names(mask);
    const auto i = sx_choose("first", 3), j = sx_choose("second", 3);
    const std::string a(1, static_cast<char>('a' + i));
    const char b[2] = {static_cast<char>('a' + j), 0};
    const bool ok = (mask & (1u << i)) && (mask & (1u << j));
    try {
        const auto r = make_polynomials<P>(ss, a, b);
        sx_check(ok, "names of the set");
        sx_check(r.size() == 2u, "as many as names");
        for (unsigned q = 0; q < 2u; ++q) {
            const unsigned which = static_cast<unsigned>(q ? j : i);
            sx_check(r[q].get_symbol_set() == ss && r[q].size() == 1u && r[q].get_s_size() == 0u, "one term");
            sx_check(r[q].begin()->second.v == 1u, "unit coefficient");
            unsigned pos = 0;
            for (unsigned w = 0; w < 3u; ++w) {
                if (mask & (1u << w)) {
                    sx_check(exponent(r[q].begin()->first, pos, ss) == (w == which ? 1 : 0), "exponents");
                    ++pos;
                }
            }
        }
    } catch (const std::invalid_argument &) {
        sx_check(!ok, "invalid argument only for a name that is not in the set");
    }
    const auto r = make_polynomials<P>(a, b);
    for (unsigned q = 0; q < 2u; ++q) {
        sx_check(r[q].get_symbol_set() == names(1u << (q ? j : i)) && r[q].size() == 1u, "one term, one symbol");
        sx_check(r[q].begin()->second.v == 1u, "unit coefficient");
        sx_check(exponent(r[q].begin()->first, 0, r[q].get_symbol_set()) == 1, "exponent one");
    }
    sx_reach("end");
}
HARNESS(generators_packed)
{
    using k = packed_monomial<std::int64_t>;
    generators<polynomial<k, z8>, k>([](const k &x, unsigned i, const symbol_set &s) {
        return key_p_degree(x, symbol_idx_set{i}, s);
    });
}
HARNESS(generators_d_packed)
{
    using k = d_packed_monomial<std::int64_t, 2>;
    generators<polynomial<k, z8>, k>([](const k &x, unsigned i, const symbol_set &s) {
        return key_p_degree(x, symbol_idx_set{i}, s);
    });
}
