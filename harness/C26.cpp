// The text and TeX forms: read back by the parser below, they denote the object that was printed.
#include "stream.hpp"
#include "poly.hpp"
#include "mono.hpp"
#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/detail/to_string.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/tex_stream_insert.hpp>

#if defined(SX_SYMBOLIC)
// The decimal form of 128-bit integers is the subject of C11: here it is any text that depends on the whole number.
#define RAW(name, type)                                                                                                \
    extern "C" __attribute__((used)) void name(std::string *r, const type *n)                                                \
    {                                                                                                                  \
        new (r) std::string;                                                                                           \
        for (unsigned i = 0; i < 16u; ++i) {                                                                           \
            *r += static_cast<char>(*n >> (8u * i));                                                                    \
        }                                                                                                              \
    }
RAW(sxo__ZN5obake6detail9to_stringInEENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKT_, __int128)
RAW(sxo__ZN5obake6detail9to_stringIoEENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERKT_, unsigned __int128)
#endif

// ------------------------------------------------------------------------- the parser
// Symbols are single letters 'a'...'f'. A value is a list of terms, each with the exponents of the symbols.
struct pterm {
    long e[6] = {0, 0, 0, 0, 0, 0};
    long c = 1;
};
using value = std::vector<pterm>;
static bool operator==(const pterm &a, const pterm &b)
{
    bool r = true;
    for (unsigned i = 0; i < 6u; ++i) {
        r = sx_and(r, a.e[i] == b.e[i]);
    }
    return r;
}
static long coef(const value &v, const pterm &p)
{
    long r = 0;
    for (const auto &t : v) {
        r += sx::ite<long>(t == p, t.c, 0);
    }
    return r;
}
// Equality of values: the coefficients of all the terms that appear are the same.
static bool same(const value &a, const value &b)
{
    bool r = true;
    for (const auto *v : {&a, &b}) {
        for (const auto &t : *v) {
            r = sx_and(r, coef(a, t) == coef(b, t));
        }
    }
    return r;
}
static value times(const value &a, const value &b)
{
    value r;
    for (const auto &x : a) {
        for (const auto &y : b) {
            pterm t;
            for (unsigned i = 0; i < 6u; ++i) {
                t.e[i] = x.e[i] + y.e[i];
            }
            t.c = x.c * y.c;
            r.push_back(t);
        }
    }
    return r;
}
struct parser {
    const std::string s;
    std::size_t p = 0;
    bool ellipsis = false;
    bool at(char c) const { return p < s.size() && s[p] == c; }
    bool at(const char *t) const
    {
        for (std::size_t i = 0; t[i]; ++i) {
            if (p + i >= s.size() || s[p + i] != t[i]) {
                return false;
            }
        }
        return true;
    }
    bool eat(const char *t)
    {
        if (at(t)) {
            p += std::char_traits<char>::length(t);
            return true;
        }
        return false;
    }
    void need(const char *t) { sx_check(eat(t), "well-formed"); }
    bool digit() const { return p < s.size() && sx_fork(sx_and(s[p] >= '0', s[p] <= '9')); }
    bool letter() const { return p < s.size() && s[p] >= 'a' && s[p] <= 'f'; }
    long number()
    {
        sx_check(digit(), "a number");
        long r = 0;
        while (digit()) {
            r = r * 10 + (s[p++] - '0');
        }
        return r;
    }
    long integer()
    {
        const bool neg = eat("-");
        const long r = number();
        return neg ? -r : r;
    }
    unsigned symbol()
    {
        sx_check(letter(), "a symbol");
        return static_cast<unsigned>(s[p++] - 'a');
    }
    // Plain text.
    value factor()
    {
        if (eat("(")) {
            value r = sum();
            need(")");
            return r;
        }
        pterm t;
        if (letter()) {
            const unsigned i = symbol();
            t.e[i] = eat("**") ? integer() : 1;
        } else {
            t.c = number();
        }
        return {t};
    }
    value product()
    {
        value r = factor();
        while (eat("*")) {
            r = times(r, factor());
        }
        return r;
    }
    // TeX: factors one after the other.
    value tex_factors()
    {
        pterm t;
        sx_check(at('{'), "a factor");
        while (eat("{")) {
            const unsigned i = symbol();
            need("}");
            long n = 1;
            if (eat("^{")) {
                n = integer();
                need("}");
            }
            t.e[i] += n;
        }
        return {t};
    }
    value tex_product()
    {
        value r{pterm{}};
        bool some = false;
        for (;; some = true) {
            if (eat("\\left(")) {
                r = times(r, tex_sum());
                need("\\right)");
            } else if (eat("\\frac{")) {
                if (at('{')) {
                    r = times(r, tex_factors());
                } else {
                    pterm t;
                    t.c = number();
                    r = times(r, {t});
                }
                need("}{");
                value d = tex_factors();
                need("}");
                for (auto &e : d[0].e) {
                    e = -e;
                }
                r = times(r, d);
            } else if (at('{')) {
                r = times(r, tex_factors());
            } else if (digit()) {
                sx_check(!some, "a number comes first"); // otherwise its digits would run into other ones
                pterm t;
                t.c = number();
                r = times(r, {t});
            } else {
                break;
            }
        }
        sx_check(some, "not an empty product");
        return r;
    }
    template <bool Tex>
    value any_sum()
    {
        value r;
        bool neg = eat("-");
        for (;;) {
            value t = Tex ? tex_product() : product();
            for (auto &x : t) {
                if (neg) {
                    x.c = -x.c;
                }
                r.push_back(x);
            }
            if (eat("+")) {
                if (eat(Tex ? "\\ldots" : "...")) {
                    ellipsis = true;
                    break;
                }
                neg = false;
            } else if (eat("-")) {
                neg = true;
            } else {
                break;
            }
        }
        return r;
    }
    value sum() { return any_sum<false>(); }
    value tex_sum() { return any_sum<true>(); }
    value all(bool tex)
    {
        value r = tex ? tex_sum() : sum();
        sx_check(p == s.size(), "nothing is left");
        return r;
    }
};

// ------------------------------------------------------------------------- the objects
static long small(const char *n, long lo, long hi)
{
    const std::int8_t v = sx::sym<std::int8_t>(n);
    sx_assume(v >= lo);
    sx_assume(v <= hi);
    return v;
}
template <typename K>
static void check_key(const K &k, const symbol_set &ss, const value &m)
{
    std::ostringstream o, t;
    obake::key_stream_insert(o, k, ss);
    parser p{o.str()};
    sx_check(same(p.all(false), m), "text of the key");
    obake::key_tex_stream_insert(t, k, ss);
    parser q{t.str()};
    sx_check(same(q.all(true), m), "TeX of the key");
}
// A key with the exponents of the symbols of names, in order.
template <typename K>
static K any_key(const char *names, value &m, long lo, long hi)
{
    using T = typename K::value_type;
    std::vector<T> e;
    pterm t;
    for (; *names; ++names) {
        const long v = small("e", lo, hi);
        e.push_back(static_cast<T>(v));
        t.e[*names - 'a'] = v;
    }
    m = {t};
    return sx_key<K>(e);
}
template <typename K>
static void keys(bool sgn)
{
    static const char *const names[] = {"", "a", "bd", "ace"};
    const auto n = sx_choose("symbols", 4);
    const long hi = n == 1u ? 120 : n == 2u ? 12 : 3;
    value m;
    const K k = any_key<K>(names[n], m, sgn ? -hi : 0, hi);
    check_key(k, sx_ss(names[n]), m);
    sx_reach("end");
}
HARNESS(key_pm_i32) { keys<packed_monomial<std::int32_t>>(true); }
HARNESS(key_pm_u32) { keys<packed_monomial<std::uint32_t>>(false); }
HARNESS(key_pm_i64) { keys<packed_monomial<std::int64_t>>(true); }
HARNESS(key_pm_u64) { keys<packed_monomial<std::uint64_t>>(false); }
HARNESS(key_dpm_i64) { keys<d_packed_monomial<std::int64_t, 2>>(true); }
HARNESS(key_dpm_u64) { keys<d_packed_monomial<std::uint64_t, 2>>(false); }
HARNESS(key_dpm_i32) { keys<d_packed_monomial<std::int32_t, 1>>(true); }
// The exponents next to the limits of the type.
template <typename K>
static void key_limits()
{
    using T = typename K::value_type;
    const auto lims = obake::detail::kpack_get_lims<T>(1);
    const long lo = static_cast<long>(lims.first), hi = static_cast<long>(lims.second);
    const long d = static_cast<long>(sx_choose("distance", 3));
    const long v = sx_choose("end", 2) ? lo + d : hi - d;
    pterm t;
    t.e[1] = v;
    const std::vector<T> e{static_cast<T>(v)};
    check_key(K(e), sx_ss("b"), {t});
    sx_reach("end");
}
HARNESS(key_limits_i32) { key_limits<packed_monomial<std::int32_t>>(); }
HARNESS(key_limits_u32) { key_limits<packed_monomial<std::uint32_t>>(); }

// ------------------------------------------------------------------------- series
using pm = packed_monomial<std::int64_t>;
using q1 = polynomial<pm, int>;
using q2 = polynomial<pm, q1>;
using q3 = polynomial<pm, q2>;
template <typename S>
static void check_text(const S &s, const value &m)
{
    std::ostringstream o, t, c, d;
    obake::detail::series_stream_terms_impl<false>(o, s);
    parser p{o.str()};
    sx_check(same(p.all(false), m), "text");
    sx_check(!p.ellipsis, "no ellipsis");
    obake::tex_stream_insert(t, s);
    parser q{t.str()};
    sx_check(same(q.all(true), m), "TeX");
    sx_check(!q.ellipsis, "no ellipsis");
    // As a coefficient: something that can be multiplied.
    if (s.size()) {
        obake::cf_stream_insert(c, s);
        parser u{c.str() + "*f"};
        pterm f;
        f.e[5] = 1;
        sx_check(same(u.all(false), times(m, {f})), "text of a coefficient");
        obake::cf_tex_stream_insert(d, s);
        parser w{d.str() + "{f}"};
        sx_check(same(w.all(true), times(m, {f})), "TeX of a coefficient");
    }
}
static q1 any_q1(const char *names, unsigned n, value &m, long lo, long hi)
{
    q1 r;
    r.set_symbol_set(sx_ss(names));
    for (unsigned i = 0; i < n; ++i) {
        value k;
        const pm key = any_key<pm>(names, k, lo, hi);
        for (const auto &t : m) {
            sx_assume(sx_not(t == k[0]));
        }
        const long c = small("c", -12, 12);
        sx_assume(c != 0);
        k[0].c = c;
        m.push_back(k[0]);
        r.add_term(key, static_cast<int>(c));
    }
    return r;
}
HARNESS(terms_0)
{
    check_text(q1{}, {});
    check_text(q2{}, {});
    sx_reach("end");
}
HARNESS(terms_1)
{
    value m;
    const q1 r = any_q1(sx_choose("names", 2) ? "b" : "ac", 1, m, -2, 2);
    check_text(r, m);
    sx_reach("end");
}
HARNESS(terms_2)
{
    value m;
    const q1 r = any_q1("b", 2, m, -1, 1);
    check_text(r, m);
    sx_reach("end");
}
HARNESS(terms_3)
{
    value m;
    const q1 r = any_q1("b", 3, m, 0, 2);
    check_text(r, m);
    sx_reach("end");
}
static q2 any_q2(unsigned nt, value &m)
{
    q2 r;
    r.set_symbol_set(sx_ss("d"));
    for (unsigned i = 0; i < nt; ++i) {
        value c;
        const unsigned n = 1u + static_cast<unsigned>(sx_choose("terms", 2));
        q1 x;
        x.set_symbol_set(sx_ss("a"));
        for (unsigned j = 0; j < n; ++j) {
            const long v = small("c", -2, 2);
            sx_assume(v != 0);
            // The keys of the coefficient: 1, a or a**2.
            pterm t;
            t.e[0] = static_cast<long>(j + (n == 1u ? sx_choose("key", 2) : 0u));
            t.c = v;
            c.push_back(t);
            const std::vector<std::int64_t> e{t.e[0]};
            x.add_term(pm(e), static_cast<int>(v));
        }
        pterm k;
        k.e[3] = static_cast<long>(i + (nt == 1u ? sx_choose("key", 3) : 0u));
        const std::vector<std::int64_t> e{k.e[3]};
        r.add_term(pm(e), std::move(x));
        for (const auto &t : times(c, {k})) {
            m.push_back(t);
        }
    }
    return r;
}
HARNESS(nested_2)
{
    value m;
    const q2 r = any_q2(1u + static_cast<unsigned>(sx_choose("n", 2)), m);
    check_text(r, m);
    sx_reach("end");
}
HARNESS(nested_3)
{
    value c;
    q2 x = any_q2(1, c);
    q3 r;
    r.set_symbol_set(sx_ss("e"));
    pterm k;
    k.e[4] = static_cast<long>(sx_choose("key3", 2));
    const std::vector<std::int64_t> e{k.e[4]};
    r.add_term(pm(e), std::move(x));
    check_text(r, times(c, {k}));
    sx_reach("end");
}
// At most 50 terms are printed.
HARNESS(ellipsis)
{
    const long n = 49 + static_cast<long>(sx_choose("n", 4));
    const unsigned seg = sx_choose("seg", 2) ? 2u : 0u;
    q1 r;
    r.set_symbol_set(sx_ss("b"));
    r.set_n_segments(seg);
    value m;
    const long c0 = small("c", 2, 9);
    for (long i = 0; i < n; ++i) {
        const std::vector<std::int64_t> e{i + 2};
        const long c = i == 7 ? c0 : 3;
        r.add_term(pm(e), static_cast<int>(c));
        pterm t;
        t.e[1] = i + 2;
        t.c = c;
        m.push_back(t);
    }
    for (unsigned tex = 0; tex < 2u; ++tex) {
        std::ostringstream o;
        if (tex) {
            obake::tex_stream_insert(o, r);
        } else {
            obake::detail::series_stream_terms_impl<false>(o, r);
        }
        parser p{o.str()};
        const value v = p.all(tex);
        sx_check(p.ellipsis == (n > 50), "ellipsis if, and only if, there are more than 50 terms");
        sx_check(static_cast<long>(v.size()) == (n > 50 ? 50 : n), "50 terms");
        bool seen[64] = {};
        for (const auto &t : v) {
            const auto i = static_cast<long>(sx_concretize(static_cast<std::uint64_t>(t.e[1]))) - 2;
            sx_check(i >= 0 && i < n && !seen[i], "terms of the series, each of them once");
            seen[i] = true;
            sx_check(t.c == m[static_cast<unsigned>(i)].c && t == m[static_cast<unsigned>(i)], "coefficient");
        }
    }
    sx_reach("end");
}
// The header of the plain text.
static std::string line(const std::string &s, std::size_t &p)
{
    std::string r;
    while (p < s.size() && s[p] != '\n') {
        r += s[p++];
    }
    sx_check(p < s.size(), "a line");
    ++p;
    return r;
}
static void field(const std::string &s, std::size_t &p, const std::string &t)
{
    sx_check(line(s, p) == t, "line of the header");
}
HARNESS(header)
{
    value m;
    const auto n = static_cast<unsigned>(sx_choose("n", 3));
    static const char *const names[] = {"", "b", "ac"};
    const auto w = n > 1u ? 1u : sx_choose("names", 3);
    const q1 r = any_q1(names[w], n && w == 0u ? 1u : n, m, 0, 1);
    std::ostringstream o;
    o << r;
    const std::string s = o.str();
    std::size_t p = 0;
    line(s, p);
    line(s, p);
    field(s, p, "Rank: 1");
    field(s, p, w == 0u ? "Symbol set: {}" : w == 1u ? "Symbol set: {'b'}" : "Symbol set: {'a', 'c'}");
    field(s, p, std::string("Number of terms: ") + static_cast<char>('0' + static_cast<int>(r.size())));
    parser q{s.substr(p)};
    sx_check(same(q.all(false), m), "text");
    sx_reach("end");
}
// ------------------------------------------------------------------------- power series
using w1 = p_series<pm, int>;
using deg_t = std::int64_t;
HARNESS(power_series)
{
    w1 x;
    x.set_symbol_set(sx_ss("ab"));
    const long c = small("c", -3, 3);
    sx_assume(c != 0);
    const std::vector<std::int64_t> e{2, 1};
    x.add_term(pm(e), static_cast<int>(c));
    pterm t;
    t.e[0] = 2;
    t.e[1] = 1;
    t.c = c;
    const auto kind = sx_choose("kind", 4);
    const long d = small("degree", 3, 25);
    if (kind == 1u) {
        obake::set_truncation(x, deg_t(d));
    } else if (kind == 2u) {
        obake::set_truncation(x, deg_t(d), symbol_set{"b"});
    } else if (kind == 3u) {
        obake::set_truncation(x, deg_t(d), symbol_set{"a", "b"});
    }
    std::ostringstream o, u;
    obake::tex_stream_insert(o, x);
    const std::string s = o.str();
    std::size_t cut = 0;
    while (cut < s.size() && s[cut] != ' ') {
        ++cut;
    }
    parser p{s.substr(0, cut)};
    sx_check(same(p.all(true), {t}), "TeX of the terms");
    parser q{s.substr(cut)};
    if (kind) {
        q.need(" + \\mathcal{O}\\left( > ");
        sx_check(q.number() == d, "degree of the truncation");
        if (kind > 1u) {
            q.need(kind == 2u ? " ; b" : " ; a, b");
        }
        q.need(" \\right)");
    }
    sx_check(q.p == q.s.size(), "nothing is left");
    u << x;
    parser h{u.str()};
    h.need("Series type: power series\n");
    if (kind == 0u) {
        h.need("Truncation: none\n");
    } else {
        h.need(kind == 1u ? "Truncation degree: " : "Partial truncation degree: ");
        sx_check(h.number() == d, "degree of the truncation");
        h.need(kind == 1u ? "\n" : kind == 2u ? ", {'b'}\n" : ", {'a', 'b'}\n");
    }
    line(h.s, h.p);
    line(h.s, h.p);
    h.need("Rank: 1\nSymbol set: {'a', 'b'}\nNumber of terms: 1\n");
    parser z{h.s.substr(h.p)};
    sx_check(same(z.all(false), {t}), "text of the terms");
    sx_reach("end");
}
// ------------------------------------------------------------------------- 128-bit integers, rationals
template <typename T>
static void int128()
{
    const T n = sx::sym<T>("n");
    const std::string s = obake::detail::to_string(n);
    std::ostringstream a, b, c;
    obake::cf_stream_insert(a, n);
    sx_check(a.str() == s, "coefficient");
    obake::tex_stream_insert(b, n);
    sx_check(b.str() == s, "TeX");
    obake::cf_tex_stream_insert(c, n);
    sx_check(c.str() == s, "TeX coefficient");
    sx_reach("end");
}
HARNESS(int128_s) { int128<__int128>(); }
HARNESS(int128_u) { int128<unsigned __int128>(); }
HARNESS(rational)
{
    const long n = static_cast<long>(sx_choose("n", 25)) - 12, d = static_cast<long>(1u + sx_choose("d", 12));
    const mppp::rational<1> q{mppp::integer<1>(n), mppp::integer<1>(d)};
    std::ostringstream o;
    obake::tex_stream_insert(o, q);
    parser p{o.str()};
    const bool neg = p.eat("-");
    long a, b = 1;
    if (p.eat("\\frac{")) {
        a = p.number();
        p.need("}{");
        b = p.number();
        p.need("}");
    } else {
        a = p.number();
    }
    sx_check(p.p == p.s.size(), "nothing is left");
    sx_check((neg ? -a : a) * d == n * b, "value");
    sx_reach("end");
}
