import runpy, os
_k5 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'k5.py'))
POLY, PRE, PH, SH = _k5['POLY'], _k5['PRE'], _k5['PH'], _k5['SH']
DH = 'include/obake/polynomials/d_packed_monomial.hpp'
WH = 'include/obake/power_series/power_series.hpp'
MONO = ['kpack.cpp', 'polynomials/d_packed_monomial.cpp', 'symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp']
SEEDS = [
dict(id='dpm-pow-packed', property='C07', srcs=POLY,
    needs='a component whose multiple leaves its range while the multiple of the packed value is within the range of the packed values',
    breaks='the power of a dynamically sized monomial is another monomial instead of an overflow error',
    edits=[(DH, '''    // Unpack, multiply in arbitrary-precision arithmetic, re-pack.
    T tmp;
    symbol_idx idx = 0;
    remove_cvref_t<decltype(exp)> tmp_int;
    for (const auto &np : c_in) {
        kunpacker<T> ku(np, PSize);
        kpacker<T> kp(PSize);

        for (auto j = 0u; j < PSize && idx < s_size; ++j, ++idx) {
            ku >> tmp;
            tmp_int = tmp;
            tmp_int *= exp;
            kp << static_cast<T>(tmp_int);
        }

        c_out.push_back(kp.get());
    }
''', '''    // NOTE: the packing is linear, thus we can multiply the packed values
    // directly (in arbitrary-precision arithmetic).
    ::obake::detail::ignore(s_size);
    const auto [klim_min, klim_max] = ::obake::detail::kpack_get_klims<T>(PSize);
    remove_cvref_t<decltype(exp)> tmp_int;
    for (const auto &np : c_in) {
        tmp_int = np;
        tmp_int *= exp;
        if (obake_unlikely(tmp_int < klim_min || tmp_int > klim_max)) {
            obake_throw(::std::overflow_error, "Overflow in the exponentiation of a dynamic packed monomial");
        }

        c_out.push_back(static_cast<T>(tmp_int));
    }
''')],
    demo=PRE + r'''
int main()
{
    using K = d_packed_monomial<std::int64_t, 4>;
    const symbol_set ss{"a", "b", "c", "d", "e"};
    const auto lim = detail::kpack_get_lims<std::int64_t>(4).second;
    const K k{std::int64_t(1), std::int64_t(-3), std::int64_t(2), std::int64_t(0), std::int64_t(7)};
    REQUIRE(monomial_pow(k, 3, ss) == K{std::int64_t(3), std::int64_t(-9), std::int64_t(6), std::int64_t(0), std::int64_t(21)});
    for (int i = 0; i < 5; ++i) {
        std::int64_t e[5] = {0, 0, 0, 0, 0};
        e[i] = lim / 2 + 1;
        bool thrown = false;
        try {
            monomial_pow(K(e, 5), 2, ss);
        } catch (const std::overflow_error &) {
            thrown = true;
        }
        REQUIRE(thrown);
    }
}
'''),
dict(id='merge-disjoint', property='C09', srcs=['symbols.cpp', 'detail/to_string.cpp'],
    needs='two symbol sets such that the last symbol of the first is the first symbol of the second',
    breaks='the union contains a symbol twice and the insertion maps do not match it',
    edits=[('src/symbols.cpp', '''    // Prepare the storage.
    seq.resize(static_cast<symbol_set::size_type>(s1.size() + s2.size()));
''', '''    // Fast path: all the symbols of s2 come after the symbols of s1.
    if (!s1.empty() && !s2.empty() && !(*s2.begin() < *s1.rbegin())) {
        seq.reserve(static_cast<symbol_set::size_type>(s1.size() + s2.size()));
        seq.insert(seq.end(), s1.begin(), s1.end());
        seq.insert(seq.end(), s2.begin(), s2.end());

        symbol_set u;
        u.adopt_sequence(::boost::container::ordered_unique_range_t{}, ::std::move(seq));
        symbol_idx_map<symbol_set> fm1, fm2;
        fm1.emplace(s1.size(), s2);
        fm2.emplace(0u, s1);

        return ::std::make_tuple(::std::move(u), ::std::move(fm1), ::std::move(fm2));
    }

    // Prepare the storage.
    seq.resize(static_cast<symbol_set::size_type>(s1.size() + s2.size()));
''')],
    demo=PRE + r'''
int main()
{
    using M = symbol_idx_map<symbol_set>;
    const auto [u, a, b] = detail::merge_symbol_sets(symbol_set{"a", "b"}, symbol_set{"c", "d"});
    REQUIRE(u == symbol_set{"a", "b", "c", "d"} && a == M{{2, {"c", "d"}}} && b == M{{0, {"a", "b"}}});
    const auto [v, c, d] = detail::merge_symbol_sets(symbol_set{"a", "b"}, symbol_set{"b", "c"});
    REQUIRE(v.size() == 3u && v == symbol_set{"a", "b", "c"} && c == M{{2, {"c"}}} && d == M{{0, {"a"}}});
}
'''),
dict(id='convert-then-compare', property='C10', srcs=['detail/to_string.cpp'],
    needs='a conversion from a signed to an unsigned type that fails because the value is too large',
    breaks='a failed conversion modifies its target',
    edits=[('include/obake/math/safe_convert.hpp', '''            if (n < U(0) || static_cast<make_unsigned_t<U>>(n) > Tmax) {
                return false;
            }
            out = static_cast<T>(n);
            return true;''', '''            if (n < U(0)) {
                return false;
            }
            out = static_cast<T>(n);
            return out == static_cast<make_unsigned_t<U>>(n);''')],
    demo=PRE.replace('#include <obake/poly', '//').replace('#include <obake/series.hpp>', '#include <obake/math/safe_convert.hpp>') + r'''
int main()
{
    std::uint8_t o = 7;
    REQUIRE(!safe_convert(o, -1) && o == 7);
    REQUIRE(!safe_convert(o, 300) && o == 7);
    REQUIRE(safe_convert(o, 255) && o == 255);
    std::uint32_t q = 9;
    REQUIRE(!safe_convert(q, std::int64_t(1) << 40) && q == 9);
}
'''),
dict(id='to-string-chunks', property='C11', srcs=['detail/to_string.cpp'],
    needs='a 128-bit number beyond 64 bits with a zero at the start of its last eighteen digits',
    breaks='zeros inside the decimal representation of large 128-bit numbers are lost',
    edits=[('src/detail/to_string.cpp', '''    // Write the reversed base-10 representation into the buffer.
    ::std::size_t len = 0;
    while (n) {
        buffer[len++] = static_cast<char>('0' + n % 10u);
        n /= 10u;
    }

    // Construct the return value, special-casing zero.
    if (len) {
        assert(len <= sizeof(buffer));
        return''', '''    // Write the reversed base-10 representation into the buffer.
    ::std::size_t len = 0;
    if constexpr (sizeof(T) > sizeof(unsigned long long)) {
        // NOTE: 128-bit divisions are slow, extract eighteen digits at a time.
        constexpr auto chunk = 1000000000000000000ull;
        while (n > limits_max<unsigned long long>) {
            for (auto c = static_cast<unsigned long long>(n % chunk); c; c /= 10u) {
                buffer[len++] = static_cast<char>('0' + c % 10u);
            }
            n /= chunk;
        }
    }
    while (n) {
        buffer[len++] = static_cast<char>('0' + n % 10u);
        n /= 10u;
    }

    // Construct the return value, special-casing zero.
    if (len) {
        assert(len <= sizeof(buffer));
        return''')],
    demo=PRE.replace('#include <obake/poly', '//').replace('#include <obake/series.hpp>', '#include <obake/detail/to_string.hpp>') + r'''
int main()
{
    __uint128_t n = ~__uint128_t(0);
    REQUIRE(detail::to_string(n) == "340282366920938463463374607431768211455");
    n = 123456789ull;
    n *= 1000000000000000000ull;
    n *= 10u;
    n += 5u;
    REQUIRE(detail::to_string(n) == "1234567890000000000000000005");
    n = 1234567890123456789ull;
    n *= 1000000000000000000ull;
    n += 345678901234567890ull;
    REQUIRE(detail::to_string(n) == "1234567890123456789345678901234567890");
}
'''),
dict(id='fw-unlocked-lookup', property='C12', srcs=['detail/fw_utils.cpp'], flags='-g -fsanitize=thread',
    needs='two threads that request storage for types at the same time',
    breaks='the table of the global storage is read without the lock while another thread inserts into it',
    edits=[('src/detail/fw_utils.cpp', '''    // Lock for multithreading safety.
    ::std::lock_guard lock{fw_mutex};

    // Try to add a new entry for the type tp.''', '''    // NOTE: most of the times the storage exists already, avoid
    // the lock in such a case.
    if (const auto existing = fw_map.value.find(tp); existing != fw_map.value.end()) {
        return {::std::get<0>(existing->second).get(), false};
    }

    // Lock for multithreading safety.
    ::std::lock_guard lock{fw_mutex};

    // Try to add a new entry for the type tp.''')],
    demo=r'''
#include <thread>
#include <typeinfo>
#include <utility>
#include <vector>
#include <obake/detail/fw_utils.hpp>
template <int N>
struct tag {
    int x = N;
};
template <int N>
int ask()
{
    auto p = obake::detail::fw_fetch_storage(typeid(tag<N>), sizeof(tag<N>), [](void *) {});
    return p.first == nullptr;
}
template <int... N>
int all(std::integer_sequence<int, N...>)
{
    return (0 + ... + ask<N>());
}
int main()
{
    std::vector<int> r(4);
    std::vector<std::thread> t;
    for (int i = 0; i < 4; ++i) t.emplace_back([&r, i]() { r[i] = all(std::make_integer_sequence<int, 100>{}); });
    for (auto &x : t) x.join();
    return r[0] + r[1] + r[2] + r[3] != 0;
}
'''),
dict(id='kpack-rejected-slot', property='C02', srcs=['kpack.cpp', 'detail/to_string.cpp'],
    needs='a value offered to a packer, rejected because it is out of range, and another value offered in its place',
    breaks='a rejected value uses up its slot: later values are packed at the wrong place or refused',
    edits=[('include/obake/kpack.hpp', '''        // Get the components' limits.
        const auto [lim_min, lim_max] = detail::kpack_get_lims<T>(m_size);

        // Check that n is within the limits.
        if (obake_unlikely(n < lim_min || n > lim_max)) {
            obake_throw(::std::overflow_error,
                        fmt::format("Cannot push the value''', '''        // Get the components' limits.
        const auto [lim_min, lim_max] = detail::kpack_get_lims<T>(m_size);

        // Move to the next component.
        ++m_index;

        // Check that n is within the limits.
        if (obake_unlikely(n < lim_min || n > lim_max)) {
            obake_throw(::std::overflow_error,
                        fmt::format("Cannot push the value'''), ('include/obake/kpack.hpp', '''        m_cur_prod *= detail::kpack_get_delta<T>(m_size);
        ++m_index;

        return *this;
    }

    // Fetch the encoded value.''', '''        m_cur_prod *= detail::kpack_get_delta<T>(m_size);

        return *this;
    }

    // Fetch the encoded value.''')],
    demo=PRE.replace('#include <obake/poly', '//').replace('#include <obake/series.hpp>', '#include <obake/kpack.hpp>') + r'''
int main()
{
    kpacker<std::int32_t> p(3);
    p << 1;
    try {
        p << std::numeric_limits<std::int32_t>::max();
        return 1;
    } catch (const std::overflow_error &) {
    }
    p << 2 << 3;
    kunpacker<std::int32_t> u(p.get(), 3);
    int a, b, c;
    u >> a >> b >> c;
    REQUIRE(a == 1 && b == 2 && c == 3);
}
'''),
dict(id='dpm-mul-aliased', property='C03', srcs=MONO,
    needs='a product written over one of its factors',
    breaks='the product of dynamically sized monomials is wrong when the result is one of the arguments',
    edits=[(DH, '''    ::std::transform(a._container().cbegin(), a._container().cend(), b._container().cbegin(), out._container().begin(),
                     [](const T &x, const T &y) { return x + y; });
''', '''    auto &c_out = out._container();
    c_out.assign(a._container().cbegin(), a._container().cend());
    auto it = b._container().cbegin();
    for (auto &x : c_out) {
        x += *it++;
    }
''')],
    demo=PRE.replace('#include <obake/polynomials/polynomial.hpp>', '').replace('#include <obake/series.hpp>', '') + r'''
int main()
{
    using K = d_packed_monomial<std::int32_t, 2>;
    const symbol_set ss{"a", "b", "c"};
    const K x{1, 2, 3}, y{4, 5, 6}, r{5, 7, 9};
    K o(ss), p(x), q(y), s(x);
    monomial_mul(o, x, y, ss);
    REQUIRE(o == r);
    monomial_mul(p, p, y, ss);
    REQUIRE(p == r);
    monomial_mul(q, x, q, ss);
    REQUIRE(q == r);
    monomial_mul(s, s, s, ss);
    REQUIRE((s == K{2, 4, 6}));
}
'''),
dict(id='dpm-degree-per-pack', property='C05', srcs=POLY,
    needs='exponents that fit their packs but whose total over several packs does not fit the integer type',
    breaks='the degree of a monomial wraps around instead of raising an overflow error',
    edits=[(DH, '''    symbol_idx idx = 0;
    T tmp, retval(0);
    for (const auto &n : d._container()) {
        kunpacker<T> ku(n, PSize);

        for (auto j = 0u; j < PSize && idx < s_size; ++j, ++idx) {
            ku >> tmp;
            retval = ::obake::detail::safe_int_add(retval, tmp);
        }
    }
''', '''    symbol_idx idx = 0;
    T tmp, retval(0);
    for (const auto &n : d._container()) {
        kunpacker<T> ku(n, PSize);

        // Compute the degree of the pack (checking for overflow), then add it
        // to the total.
        T cur(0);
        for (auto j = 0u; j < PSize && idx < s_size; ++j, ++idx) {
            ku >> tmp;
            cur = ::obake::detail::safe_int_add(cur, tmp);
        }
        retval += cur;
    }
''')],
    demo=PRE + r'''
int main()
{
    using K = d_packed_monomial<std::uint32_t, 1>;
    const symbol_set ss{"a", "b", "c", "d"};
    const auto lim = detail::kpack_get_lims<std::uint32_t>(1).second;
    REQUIRE(key_degree(K{1u, 2u, 3u, 4u}, ss) == 10u);
    try {
        std::cerr << key_degree(K{lim, lim, lim, lim}, ss) << std::endl;
        return 1;
    } catch (const std::overflow_error &) {
    }
}
'''),
dict(id='subs-no-symbols', property='C21', srcs=POLY,
    needs='a polynomial whose coefficients are polynomials, and a substitution of symbols that appear only in the coefficients',
    breaks='the symbols of the coefficients are not substituted',
    edits=[(PH, '''    // Init a temp poly that we will use in the loop below.
    remove_cvref_t<T> tmp_poly;
    tmp_poly.set_symbol_set_fw(x.get_symbol_set_fw());
    tmp_poly.tag() = x.tag();
''', '''    // Nothing to substitute.
    if constexpr (::std::is_constructible_v<poly_subs_ret_t<T &&, U>, const remove_cvref_t<T> &>) {
        if (si.empty()) {
            return poly_subs_ret_t<T &&, U>(x);
        }
    }

    // Init a temp poly that we will use in the loop below.
    remove_cvref_t<T> tmp_poly;
    tmp_poly.set_symbol_set_fw(x.get_symbol_set_fw());
    tmp_poly.tag() = x.tag();
''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, double>;
    using R = polynomial<packed_monomial<std::int32_t>, P>;
    auto [x] = make_polynomials<P>("x");
    auto [y, z] = make_polynomials<R>("y", "z");
    const R p = x * y + z;
    REQUIRE(subs(x, symbol_map<double>{{"x", 2.}}) == 2.);
    REQUIRE(subs(p, symbol_map<double>{{"y", 2.}}) == 2. * x + z);
    REQUIRE(subs(p, symbol_map<double>{{"x", 2.}}) == 2. * y + z);
}
'''),
dict(id='degree-from-zero', property='C23', srcs=POLY,
    needs='a series all of whose terms have a negative degree',
    breaks='the degree of a series with only negative degrees is zero',
    edits=[(SH, '''        // The functor to extract the term's degree.
        d_extractor<T &&> d_extract{&x.get_symbol_set()};

        // Find the maximum degree.
        // NOTE: parallelisation opportunities here for
        // segmented tables.
        auto it = x.cbegin();
        const auto end = x.cend();
        ret_t<T &&> max_deg(d_extract(*it));
        for (++it; it != end; ++it) {
            ret_t<T &&> cur(d_extract(*it));''', '''        // The functor to extract the term's degree.
        d_extractor<T &&> d_extract{&x.get_symbol_set()};

        // Find the maximum degree.
        // NOTE: parallelisation opportunities here for
        // segmented tables.
        ret_t<T &&> max_deg(0);
        for (auto it = x.cbegin(); it != x.cend(); ++it) {
            ret_t<T &&> cur(d_extract(*it));''')],
    demo=PRE + r'''
int main()
{
    using K = packed_monomial<std::int32_t>;
    using P = polynomial<K, int>;
    P a;
    REQUIRE(degree(a) == 0);
    a.set_symbol_set(symbol_set{"x", "y"});
    a.add_term(K{-1, -3}, 1);
    REQUIRE(degree(a) == -4);
    a.add_term(K{-2, 1}, 1);
    REQUIRE(degree(a) == -1);
    a.add_term(K{-2, 4}, 1);
    REQUIRE(degree(a) == 2);
}
'''),
dict(id='ps-pow-truncated', property='C24', srcs=POLY,
    needs='a power of a power series that consists of a single term, beyond the truncation limit',
    breaks='the power keeps a term beyond the limit of its truncation',
    edits=[(WH, '''    // Re-assign the tag and truncate.
    ret.tag() = ::std::move(orig_tag);
    ::obake::truncate(ret);

    return ret;
}

// Substitution.''', '''    // Re-assign the tag.
    // NOTE: the products of power series are truncated already.
    ret.tag() = ::std::move(orig_tag);

    return ret;
}

// Substitution.''')],
    demo=PRE.replace('#include <obake/series.hpp>', '#include <obake/series.hpp>\n#include <obake/power_series/power_series.hpp>') + r'''
int main()
{
    using P = p_series<packed_monomial<std::int32_t>, double>;
    auto [x, y] = make_p_series_t<P>(3, "x", "y");
    const P a = x + y;
    REQUIRE(obake::pow(a, 3) == a * a * a);
    REQUIRE(obake::pow(a, 4).empty());
    REQUIRE(obake::pow(x, 3) == x * x * x);
    REQUIRE(obake::pow(x, 5).empty());
}
'''),
dict(id='load-archive-errors', property='C25', srcs=POLY,
    needs='an exception other than an error of the archive in the middle of loading a series',
    breaks='the series is left with part of the terms of the archive instead of being empty',
    edits=[(SH, '''            // LCOV_EXCL_START
        } catch (...) {
            // Avoid inconsistent state in case of exceptions.
            clear();
            throw;
        }''', '''            // LCOV_EXCL_START
        } catch (const ::boost::archive::archive_exception &) {
            // Avoid inconsistent state in case of exceptions.
            clear();
            throw;
        }'''), (SH, '''#include <boost/serialization/access.hpp>''', '''#include <boost/archive/archive_exception.hpp>
#include <boost/serialization/access.hpp>''')],
    demo=PRE + r'''
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
static int left = -1;
struct num {
    std::int64_t v = 0;
    num() = default;
    explicit num(int n) : v(n) {}
    num &operator+=(const num &o) { v += o.v; return *this; }
    num &operator-=(const num &o) { v -= o.v; return *this; }
    num operator*(const num &o) const { num r; r.v = v * o.v; return r; }
    num operator+(const num &o) const { num r; r.v = v + o.v; return r; }
    num operator-() const { num r; r.v = -v; return r; }
    bool operator==(const num &o) const { return v == o.v; }
    bool operator!=(const num &o) const { return v != o.v; }
    template <typename A>
    void serialize(A &ar, unsigned)
    {
        ar & v;
        if (A::is_loading::value && left >= 0 && left-- == 0) throw std::invalid_argument("bad number");
    }
};
std::ostream &operator<<(std::ostream &os, const num &b) { return os << b.v; }
bool is_zero(const num &b) { return b.v == 0; }
int main()
{
    using K = packed_monomial<std::int32_t>;
    using P = polynomial<K, num>;
    P a, b;
    a.set_symbol_set(symbol_set{"x", "y"});
    for (int i = 0; i < 5; ++i) a.add_term(K{i, -i}, num(i + 1));
    std::stringstream ss;
    {
        boost::archive::binary_oarchive oa(ss);
        oa << a;
    }
    const auto text = ss.str();
    for (int k = 0; k < 5; ++k) {
        std::stringstream in(text);
        boost::archive::binary_iarchive ia(in);
        b = a;
        left = k;
        try {
            ia >> b;
            return 1;
        } catch (const std::invalid_argument &) {
        }
        REQUIRE(b.empty());
    }
    left = -1;
    std::stringstream in(text);
    boost::archive::binary_iarchive ia(in);
    ia >> b;
    REQUIRE(a == b);
}
'''),
dict(id='print-brackets', property='C26', srcs=POLY,
    needs='a polynomial as a coefficient, with several terms joined by minus signs only',
    breaks='the printed form lacks the brackets of the coefficient and denotes another polynomial',
    edits=[(SH, '''        if (x.size() > 1u) {
            // NOTE: if the series has more than 1 term, bracket it.
            os << '(';
            detail::series_stream_terms_impl<false>(os, x);
            os << ')';
        } else''', '''        if (x.size() > 1u) {
            // NOTE: if this is a sum, bracket it.
            ::std::ostringstream oss;
            oss.flags(os.flags());
            detail::series_stream_terms_impl<false>(oss, x);
            const auto str = oss.str();
            if (str.find('+') == ::std::string::npos && str.front() != '-') {
                os << str;
            } else {
                os << '(' << str << ')';
            }
        } else''')],
    demo=PRE + r'''
int main()
{
    using P = polynomial<packed_monomial<std::int32_t>, int>;
    using R = polynomial<packed_monomial<std::int32_t>, P>;
    auto [a, b] = make_polynomials<P>("a", "b");
    auto [z] = make_polynomials<R>("z");
    for (const auto &[p, s, t] : {std::make_tuple(P(a - b), "(a-b)*z", "(-b+a)*z"), std::make_tuple(P(a + b), "(a+b)*z", "(b+a)*z"), std::make_tuple(P(-a - b), "(-a-b)*z", "(-b-a)*z")}) {
        std::ostringstream os;
        os << p * z;
        auto r = os.str();
        r = r.substr(r.rfind('\n') + 1);
        REQUIRE(r == s || r == t);
    }
}
'''),
dict(id='clearer-not-when-throwing', property='C27', srcs=POLY,
    needs='an exception while the terms of a series given as a temporary are moved into the result',
    breaks='the operand keeps terms whose coefficients have been moved away (zero coefficients)',
    edits=[(SH, '''    ~series_rref_clearer()
    {
        if constexpr (is_mutable_rvalue_reference_v<T &&>) {
            m_ref.clear();
        }
    }''', '''    ~series_rref_clearer()
    {
        if constexpr (is_mutable_rvalue_reference_v<T &&>) {
            // NOTE: in case of exceptions the contents are kept.
            if (!::std::uncaught_exceptions()) {
                m_ref.clear();
            }
        }
    }'''), (SH, '''#include <functional>''', '''#include <exception>
#include <functional>''')],
    demo=PRE + r'''
static int left = -1;
// A coefficient that owns memory: moved-from means zero; additions may fail.
struct num {
    std::unique_ptr<int> p;
    num() = default;
    explicit num(int n) : p(n ? new int(n) : nullptr) {}
    int v() const { return p ? *p : 0; }
    num(const num &o) : num(o.v()) {}
    num(num &&) noexcept = default;
    num &operator=(const num &o) { return *this = num(o); }
    num &operator=(num &&) noexcept = default;
    static void tick() { if (left >= 0 && left-- == 0) throw std::bad_alloc(); }
    num &operator+=(const num &o) { tick(); return *this = num(v() + o.v()); }
    num &operator-=(const num &o) { tick(); return *this = num(v() - o.v()); }
    num operator*(const num &o) const { return num(v() * o.v()); }
    num operator+(const num &o) const { return num(v() + o.v()); }
    num operator-(const num &o) const { return num(v() - o.v()); }
    num operator-() const { return num(-v()); }
    bool operator==(const num &o) const { return v() == o.v(); }
    bool operator!=(const num &o) const { return v() != o.v(); }
};
std::ostream &operator<<(std::ostream &os, const num &b) { return os << b.v(); }
bool is_zero(const num &b) { return b.v() == 0; }
int main()
{
    using K = packed_monomial<std::int32_t>;
    using P = polynomial<K, num>;
    for (int k = 0; k < 6; ++k) {
        P a, b;
        a.set_symbol_set(symbol_set{"x"});
        b.set_symbol_set(symbol_set{"x"});
        for (int i = 0; i < 8; ++i) a.add_term(K{i}, num(i + 1));
        for (int i = 4; i < 14; ++i) b.add_term(K{i}, num(i + 1));
        left = k;
        bool thrown = false;
        try {
            a += std::move(b);
        } catch (const std::bad_alloc &) {
            thrown = true;
        }
        left = -1;
        for (const auto &[e, c] : b) REQUIRE(c.v() != 0);
        for (const auto &[e, c] : a) REQUIRE(c.v() != 0);
        REQUIRE(thrown == (k < 4));
    }
}
'''),
]
