// C08: monomials and their symbols: construction, extension, trimming, compatibility.
#include "mono.hpp"
#include <iterator>
#include <list>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>

// Number of variables: all the small ones, and the largest ones.
template <typename K>
static unsigned some_nvars()
{
    constexpr unsigned m = mono<K>::max_vars;
#if defined(SX_THOROUGH)
    return static_cast<unsigned>(sx_choose("nvars", m + 1u));
#else
    if constexpr (m <= 6) {
        return static_cast<unsigned>(sx_choose("nvars", m + 1u));
    } else {
        const auto c = static_cast<unsigned>(sx_choose("nvars", 7));
        return c < 4 ? c : m - (c - 4);
    }
#endif
}

// New symbols at one or two places: zero exponents there, the others in order.
template <typename K>
static void merge()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = some_nvars<K>();
    const auto ss = sx_symbols(n);
#if !defined(SX_THOROUGH)
    // Places explored: all of them for few variables, else the first two, the middle and the last two.
    auto place = [n](const char *name) {
        if (n <= 4) return static_cast<unsigned>(sx_choose(name, n + 1u));
        const unsigned t[] = {0u, 1u, n / 2u, n - 1u, n};
        return t[sx_choose(name, 5)];
    };
    const unsigned p1 = place("pos1"), p2 = place("pos2");
    if (p2 < p1) return;
#else
    const unsigned p1 = static_cast<unsigned>(sx_choose("pos1", n + 1u));
    const unsigned p2 = p1 + static_cast<unsigned>(sx_choose("pos2", n + 1u - p1));
#endif
    const unsigned c1 = static_cast<unsigned>(sx_choose("cnt1", 3));
    const unsigned c2 = p2 == p1 ? 0u : static_cast<unsigned>(sx_choose("cnt2", 3));
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e), k0(k);

    symbol_idx_map<symbol_set> ins;
    unsigned id = 0;
    auto add = [&](unsigned p, unsigned c) {
        symbol_set tmp;
        for (unsigned j = 0; j < c; ++j, ++id) {
            tmp.insert(tmp.end(), std::string(1, static_cast<char>('A' + id)));
        }
        if (c) ins.emplace(p, tmp);
    };
    add(p1, c1);
    add(p2, c2);

    expos<K> exp;
    for (unsigned i = 0; i <= n; ++i) {
        if (i == p1) exp.insert(exp.end(), c1, T(0));
        if (i == p2 && p2 != p1) exp.insert(exp.end(), c2, T(0));
        if (i < n) exp.push_back(e[i]);
    }
    const unsigned m = n + c1 + c2;
    K out(ss);
#if !defined(SX_THOROUGH)
    if (n <= 4)
#endif
    {
        // The same request once before: nothing may be left over.
        sx_outcome([&]() { ::obake::key_merge_symbols(k, ins, ss); });
    }
    const auto r = sx_outcome([&]() { out = ::obake::key_merge_symbols(k, ins, ss); });
    sx_check(k == k0, "the argument is unchanged");
    const bool fits = m <= mono<K>::hard_max;
    bool ok = fits;
    if (fits) {
        const auto [lo, hi] = mono<K>::lims(m);
        for (const auto &x : e) {
            ok = sx_and(ok, sx_and(x >= lo, x <= hi));
        }
    }
    if (r == RETURNED) {
        sx_check(ok, "an extension that does not fit is an error");
        if (fits) {
            sx_check(::obake::key_is_compatible(out, sx_symbols(m)), "the extended monomial is compatible");
            const auto u = sx_unpack(out, m);
            bool same = u.size() == m;
            for (unsigned i = 0; i < u.size(); ++i) {
                same = sx_and(same, u[i] == exp[i]);
            }
            sx_check(same, "extension adds zero exponents at the right places");
            sx_check(out == K(exp.data(), m), "extension gives the same monomial as direct construction");
        }
    } else {
        sx_check(r == OVERFLOW_ERROR, "the only failure of an extension is an overflow error");
        sx_check(sx_not(ok), "an extension that fits succeeds");
    }
    sx_reach("merge");
}
FOR_MONOS(merge)

// Trimming identification keeps a mark exactly where no exponent was nonzero.
template <typename K>
static void identify()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = some_nvars<K>();
    const auto ss = sx_symbols(n);
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e);
    // What the vector contains before the call: one arbitrary pattern.
    const unsigned pat = static_cast<unsigned>(sx_choose("pattern", 3));
    std::vector<int> v;
    for (unsigned i = 0; i < n; ++i) {
        v.push_back(pat == 0 ? 1 : (pat == 1 ? 0 : static_cast<int>(i % 2)));
    }
    const auto v0 = v;
    // Zero or not zero is decided position by position: few positions are left undecided.
    const unsigned free_from = static_cast<unsigned>(sx_choose("from", n + 1u));
    for (unsigned i = 0; i < n; ++i) {
        if (i < free_from) {
            sx_assume(e[i] == T(0));
        } else if (i > free_from + 1u) {
            sx_assume(e[i] != T(0));
        }
    }
    ::obake::key_trim_identify(v, k, ss);
    sx_check(v.size() == n, "the size of the vector is unchanged");
    for (unsigned i = 0; i < n; ++i) {
        const bool kept = v[i] != 0;
        sx_check(kept == sx_and(v0[i] != 0, e[i] == T(0)), "a mark is cleared exactly by a nonzero exponent");
    }
    sx_reach("identify");
}
FOR_MONOS(identify)

// Trimming removes exactly the selected exponents.
template <typename K>
static void trim()
{
    sx_int_mode(true);
    const unsigned n = some_nvars<K>();
    const auto ss = sx_symbols(n);
    // The trimmed set: every subset for up to 4 variables, otherwise two arbitrary positions and a parity class.
    symbol_idx_set si;
    if (n <= 4) {
        const unsigned m = static_cast<unsigned>(sx_choose("mask", 1u << n));
        for (unsigned i = 0; i < n; ++i) {
            if (m & (1u << i)) si.insert(i);
        }
    } else {
        const unsigned a = static_cast<unsigned>(sx_choose("a", n)), w = static_cast<unsigned>(sx_choose("w", 3));
        for (unsigned i = 0; i < n; ++i) {
            if (i == a || (w == 1 && i == (a + 3) % n) || (w == 2 && i % 2 == a % 2)) si.insert(i);
        }
    }
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e), k0(k);
    expos<K> exp;
    for (unsigned i = 0; i < n; ++i) {
        if (si.find(i) == si.end()) exp.push_back(e[i]);
    }
    const auto out = ::obake::key_trim(k, si, ss);
    sx_check(k == k0, "the argument is unchanged");
    const unsigned m = static_cast<unsigned>(exp.size());
    const auto u = sx_unpack(out, m);
    bool same = u.size() == m;
    for (unsigned i = 0; i < u.size(); ++i) {
        same = sx_and(same, u[i] == exp[i]);
    }
    sx_check(same, "the other exponents are kept, in order");
    sx_check(::obake::key_is_compatible(out, sx_symbols(m)), "the trimmed monomial is compatible");
    sx_check(out == K(exp.data(), m), "trimming gives the same monomial as direct construction");
    sx_reach("trim");
}
FOR_MONOS(trim)

// Unitary and zero monomials; the monomial built from a symbol set.
template <typename K>
static void unitary()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    const unsigned n = some_nvars<K>();
    const auto ss = sx_symbols(n);
    const auto e = sx_expos<K>(n);
    const K k = sx_key<K>(e);
    bool all0 = true;
    for (const auto &x : e) {
        all0 = sx_and(all0, x == T(0));
    }
    const bool one = ::obake::key_is_one(k, ss);
    sx_check(one == all0, "a monomial is one exactly if all exponents are zero");
    sx_check(!::obake::key_is_zero(k, ss), "a monomial is never zero");
    const K u(ss);
    sx_check(::obake::key_is_one(u, ss), "the monomial of a symbol set is one");
    sx_check(::obake::key_is_compatible(u, ss), "the monomial of a symbol set is compatible with it");
    sx_check((u == k) == one, "all unitary monomials are equal");
    sx_reach("unitary");
}
FOR_MONOS(unitary)

// A single-pass iterator (like those of input streams): all copies share the position.
template <typename V>
struct stream_iterator {
    using value_type = V;
    using reference = const V &;
    using pointer = const V *;
    using difference_type = std::ptrdiff_t;
    using iterator_category = std::input_iterator_tag;
    const V **pos = nullptr;
    const V *end = nullptr;
    bool at_end() const
    {
        return !pos || *pos == end;
    }
    reference operator*() const
    {
        return **pos;
    }
    pointer operator->() const
    {
        return *pos;
    }
    stream_iterator &operator++()
    {
        ++*pos;
        return *this;
    }
    struct proxy {
        const V *p;
        const V &operator*() const
        {
            return *p;
        }
    };
    proxy operator++(int)
    {
        return proxy{(*pos)++};
    }
    friend bool operator==(const stream_iterator &a, const stream_iterator &b)
    {
        return a.at_end() == b.at_end();
    }
    friend bool operator!=(const stream_iterator &a, const stream_iterator &b)
    {
        return !(a == b);
    }
};

// The ways to construct a monomial agree: the result is the same or all of them fail.
template <typename K>
static void construct()
{
    using T = typename mono<K>::value_type;
    // Wider values than the exponents, of the same and of the other signedness.
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::dyn ? 4 : 5));
    const unsigned mode = static_cast<unsigned>(sx_choose("type", 2));
    sx_int_mode(true);
    auto go = [&](auto tag) {
        using V = decltype(tag);
        std::vector<V> v;
        for (unsigned i = 0; i < n; ++i) {
            v.push_back(sx::sym<V>("v"));
        }
        bool repr = true, inr = true;
        const auto [lo, hi] = mono<K>::lims(n);
        for (const auto &x : v) {
            repr = sx_and(repr, sx_and(wide(x) >= wide(std::numeric_limits<T>::min()),
                                       wide(x) <= wide(std::numeric_limits<T>::max())));
            inr = sx_and(inr, sx_and(wide(x) >= wide(lo), wide(x) <= wide(hi)));
        }
        const K dflt{symbol_set{}};
        K k1(dflt), k2(dflt), k3(dflt), k4(dflt);
        const auto r1 = sx_outcome([&]() { k1 = K(v.data(), n); });
        const auto r2 = sx_outcome([&]() { k2 = K(v.data(), v.data() + n); });
        const auto r3 = sx_outcome([&]() { k3 = K(v); });
        const auto r4 = sx_outcome([&]() {
            switch (n) {
                case 0: k4 = K(std::initializer_list<V>{}); break;
                case 1: k4 = K{v[0]}; break;
                case 2: k4 = K{v[0], v[1]}; break;
                case 3: k4 = K{v[0], v[1], v[2]}; break;
                default: k4 = K{v[0], v[1], v[2], v[3]}; break;
            }
        });
        (void)r4;
        if constexpr (mono<K>::dyn) {
            K k5(dflt), k6(dflt);
            const V *pos = v.data(), *pos2 = v.data();
            const V *end = v.data() + n;
            const auto r5 = sx_outcome([&]() { k5 = K(stream_iterator<V>{&pos, end}, stream_iterator<V>{}); });
            const auto r6 = sx_outcome([&]() { k6 = K(stream_iterator<V>{&pos2, end}, n); });
            sx_check(r5 == r1 && r6 == r1, "single-pass iterators succeed or fail like the others");
            if (r1 == RETURNED) {
                sx_check(k1 == k5 && k1 == k6, "single-pass iterators give the same monomial");
            }
        }
        sx_check(r1 == r2 && r1 == r3, "iterators and ranges succeed or fail alike");
        // NOTE: a monomial initialised with braces from a single integer of type T may be built from its code.
        if (n != 1) sx_check(r1 == r4, "an initializer list succeeds or fails like iterators");
        if (r1 == RETURNED) {
            sx_check(inr, "only exponents within the range are accepted");
            const auto u = sx_unpack(k1, n);
            bool same = u.size() == n;
            for (unsigned i = 0; i < u.size(); ++i) {
                same = sx_and(same, wide(u[i]) == wide(v[i]));
            }
            sx_check(same, "the exponents are those given");
            sx_check(k1 == k2, "iterator pairs give the same monomial");
            sx_check(k1 == k3, "ranges give the same monomial");
            if (n != 1) sx_check(k1 == k4, "initializer lists give the same monomial");
            sx_check(::obake::key_is_compatible(k1, sx_symbols(n)), "the monomial is compatible with as many symbols");
        } else {
            sx_check(sx_not(inr), "exponents within the range are accepted");
            sx_check(r1 == INVALID_ARGUMENT || r1 == OVERFLOW_ERROR, "documented error types only");
            if (r1 == INVALID_ARGUMENT) {
                sx_check(sx_not(repr), "a conversion error is raised only by values which do not fit the type");
            }
        }
    };
    if (mode == 0) {
        go(std::int64_t{});
    } else {
        go(std::uint64_t{});
    }
    sx_reach("construct");
}
FOR_MONOS(construct)

// Compatibility: exactly the images of exponents within the range, for as many symbols as the type can take.
template <typename K>
static void compatible()
{
    using T = typename mono<K>::value_type;
    sx_int_mode(true);
    constexpr unsigned maxn = mono<K>::max_vars + (mono<K>::dyn ? 0u : 2u);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", maxn + 1u));
    const auto ss = sx_symbols(n);
    if constexpr (!mono<K>::dyn) {
        const K k(sx::sym<T>("code"));
        const bool c = ::obake::key_is_compatible(k, ss);
        if (n == 0) {
            sx_check(c == (k.get_value() == T(0)), "without symbols only the unitary monomial is compatible");
        } else if (n > mono<K>::hard_max) {
            sx_check(!c, "nothing is compatible with too many symbols");
        } else {
            const auto [kmin, kmax] = ::obake::detail::kpack_get_klims<T>(n);
            // The limits of the codes are the codes of the limits.
            const auto [lo, hi] = mono<K>::lims(n);
            const expos<K> el(n, lo), eh(n, hi);
            sx_check(sx_raw_key<K>(el).get_value() == kmin && sx_raw_key<K>(eh).get_value() == kmax,
                     "the limits of the codes are the codes of the limits");
            sx_check(c == sx_and(k.get_value() >= kmin, k.get_value() <= kmax), "compatible means within the limits");
            if (c) {
                // Then unpacking does not fail.
                sx_check(sx_outcome([&]() { sx_unpack(k, n); }) == RETURNED, "a compatible monomial can be unpacked");
            }
        }
    } else {
        constexpr unsigned P = K::psize;
        const unsigned sz = static_cast<unsigned>(sx_choose("size", (maxn + P - 1) / P + 2u));
        K k{symbol_set{}};
        const auto [kmin, kmax] = ::obake::detail::kpack_get_klims<T>(P);
        bool in = true;
        for (unsigned i = 0; i < sz; ++i) {
            k._container().push_back(sx::sym<T>("code"));
            in = sx_and(in, sx_and(k._container()[i] >= kmin, k._container()[i] <= kmax));
        }
        const bool c = ::obake::key_is_compatible(k, ss);
        if (sz != (n + P - 1) / P) {
            sx_check(!c, "the number of packs must be the one required by the symbols");
        } else {
            sx_check(c == in, "compatible means within the limits");
        }
    }
    sx_reach("compatible");
}
FOR_MONOS(compatible)
