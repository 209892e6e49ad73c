// C14: the generic operations: which implementation they select, what they hand to it, and what the default ones compute.
#include "sx.hpp"
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <forward_list>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <obake/byte_size.hpp>
#include <obake/detail/fcast.hpp>
#include <obake/detail/make_array.hpp>
#include <obake/detail/not_implemented.hpp>
#include <obake/detail/tuple_for_each.hpp>
#include <obake/detail/xoroshiro128_plus.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/ranges.hpp>
#include <obake/symbols.hpp>
#include <mp++/integer.hpp>
#include <mp++/rational.hpp>
using i128 = __int128;
using u128 = unsigned __int128;

// ---------------------------------------------------------------- selection
// Three types: one that only the argument-dependent lookup knows, one that only the customisation point knows, and one
// known to both. Every implementation records which one ran, on which object, and whether it was given an rvalue.
static int who = 0;
static const void *obj = nullptr;
static int cat = 0; // 1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue
static std::uint64_t extra = 0;
template <typename T>
static void note(int w, T &&x, std::uint64_t e = 0)
{
    who = w;
    obj = &x;
    cat = std::is_lvalue_reference_v<T &&> ? 1 : 3;
    if (std::is_const_v<std::remove_reference_t<T>>) ++cat;
    extra = e;
}
namespace lib
{
struct adl_only { std::uint64_t v; };
struct cust_only { std::uint64_t v; };
struct both { std::uint64_t v; };
#define IS_OURS(T) (std::is_same_v<std::remove_cvref_t<T>, adl_only> || std::is_same_v<std::remove_cvref_t<T>, both>)
template <typename T> requires (IS_OURS(T)) std::uint64_t degree(T &&x) { note(1, std::forward<T>(x)); return x.v; }
template <typename T> requires (IS_OURS(T)) std::uint64_t p_degree(T &&x, const obake::symbol_set &s) { note(1, std::forward<T>(x), s.size()); return x.v; }
template <typename T> requires (IS_OURS(T)) std::uint64_t key_degree(T &&x, const obake::symbol_set &s) { note(1, std::forward<T>(x), s.size()); return x.v; }
template <typename T> requires (IS_OURS(T)) std::size_t hash(T &&x) { note(1, std::forward<T>(x)); return x.v; }
template <typename T> requires (IS_OURS(T)) std::size_t byte_size(T &&x) { note(1, std::forward<T>(x)); return x.v; }
template <typename T> requires (IS_OURS(T)) std::remove_cvref_t<T> trim(T &&x) { note(1, std::forward<T>(x)); return x; }
template <typename T> requires (IS_OURS(T)) std::uint64_t integrate(T &&x, const std::string &s) { note(1, std::forward<T>(x), s.size()); return x.v; }
template <typename T> requires (IS_OURS(T)) std::uint64_t diff(T &&x, const std::string &s) { note(1, std::forward<T>(x), s.size()); return x.v; }
template <typename T> requires (IS_OURS(T)) void truncate_degree(T &&x, std::uint64_t y) { note(1, std::forward<T>(x), y); }
template <typename T> requires (IS_OURS(T)) void negate(T &&x) { note(1, std::forward<T>(x)); }
template <typename T> requires (IS_OURS(T)) bool is_zero(T &&x) { note(1, std::forward<T>(x)); return x.v == 0; }
template <typename T> requires (IS_OURS(T)) std::uint64_t pow(T &&x, std::uint64_t y) { note(1, std::forward<T>(x), y); return x.v; }
template <typename T> requires (IS_OURS(T)) void fma3(T &&x, std::uint64_t y, std::uint64_t z) { note(1, std::forward<T>(x), y ^ z); }
} // namespace lib
#define CUSTOM(T) (std::is_same_v<std::remove_cvref_t<T>, lib::cust_only> || std::is_same_v<std::remove_cvref_t<T>, lib::both>)
namespace obake::customisation
{
template <typename T> requires (CUSTOM(T)) inline constexpr auto degree<T> = [](auto &&x) { note(2, std::forward<decltype(x)>(x)); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto p_degree<T> = [](auto &&x, const obake::symbol_set &s) { note(2, std::forward<decltype(x)>(x), s.size()); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto key_degree<T> = [](auto &&x, const obake::symbol_set &s) { note(2, std::forward<decltype(x)>(x), s.size()); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto hash<T> = [](auto &&x) -> std::size_t { note(2, std::forward<decltype(x)>(x)); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto byte_size<T> = [](auto &&x) -> std::size_t { note(2, std::forward<decltype(x)>(x)); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto trim<T> = [](auto &&x) { note(2, std::forward<decltype(x)>(x)); return std::remove_cvref_t<T>{x.v + 1}; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto integrate<T> = [](auto &&x, const std::string &s) { note(2, std::forward<decltype(x)>(x), s.size()); return x.v + 1; };
template <typename T> requires (CUSTOM(T)) inline constexpr auto diff<T> = [](auto &&x, const std::string &s) { note(2, std::forward<decltype(x)>(x), s.size()); return x.v + 1; };
template <typename T, typename U> requires (CUSTOM(T)) inline constexpr auto truncate_degree<T, U> = [](auto &&x, std::uint64_t y) { note(2, std::forward<decltype(x)>(x), y); };
template <typename T, typename U, typename V> requires (CUSTOM(T)) inline constexpr auto fma3<T, U, V> = [](auto &&x, std::uint64_t y, std::uint64_t z) { note(2, std::forward<decltype(x)>(x), y ^ z); };
template <typename T> requires (CUSTOM(T)) void negate(negate_t, T &&x) { note(2, std::forward<T>(x)); }
template <typename T> requires (CUSTOM(T)) bool is_zero(is_zero_t, T &&x) { note(2, std::forward<T>(x)); return x.v != 0; }
template <typename T> requires (CUSTOM(T)) std::uint64_t pow(pow_t, T &&x, std::uint64_t y) { note(2, std::forward<T>(x), y); return x.v + 1; }
} // namespace obake::customisation

template <typename T, int Expected, typename F>
static void call(F f)
{
    const auto v = sx::sym<std::uint64_t>("v"), y = sx::sym<std::uint64_t>("y");
    T x{v};
    const T c{v};
    const auto exp_v = Expected == 1 ? v : v + 1;
    for (int k = 1; k <= 4; ++k) {
        who = cat = 0;
        obj = nullptr;
        extra = 0;
        f(k, x, c, exp_v, y);
        sx_check(who == Expected, "the customisation takes precedence over the overload found by lookup");
        sx_check(cat == k, "the argument keeps its value category and constness");
        sx_check(obj == (k == 1 || k == 3 ? static_cast<const void *>(&x) : static_cast<const void *>(&c)), "the argument itself is handed over");
        sx_check(x.v == v, "the argument is not modified");
    }
}
#define PICK(k, expr) ((k) == 1 ? (expr(x)) : (k) == 2 ? (expr(c)) : (k) == 3 ? (expr(std::move(x))) : (expr(std::move(c))))
template <typename T, int E>
static void select()
{
    const obake::symbol_set ss{"a", "b", "c"};
    const std::string nm("xyzt");
    switch (sx_choose("op", 13)) {
#define OP(n, e, res, ex)                                                                                              \
    case n:                                                                                                            \
        call<T, E>([&](int k, T &x, const T &c, std::uint64_t v, std::uint64_t y) {                                    \
            (void)y;                                                                                                   \
            const auto r = PICK(k, e);                                                                                 \
            sx_check(res, "the result is handed back");                                                                \
            sx_check(extra == (ex), "the other arguments are handed over");                                            \
        });                                                                                                            \
        break;
#define E0(x) obake::degree(x)
        OP(0, E0, r == v, 0)
#define E1(x) obake::p_degree(x, ss)
        OP(1, E1, r == v, 3)
#define E2(x) obake::key_degree(x, ss)
        OP(2, E2, r == v, 3)
#define E3(x) obake::hash(x)
        OP(3, E3, r == v, 0)
#define E4(x) obake::byte_size(x)
        OP(4, E4, r == v, 0)
#define E5(x) obake::trim(x)
        OP(5, E5, r.v == v, 0)
#define E6(x) obake::integrate(x, nm)
        OP(6, E6, r == v, 4)
#define E7(x) obake::diff(x, nm)
        OP(7, E7, r == v, 4)
#define E8(x) (obake::truncate_degree(x, y), 1)
        OP(8, E8, r == 1, y)
#define E9(x) (obake::negate(x), 1)
        OP(9, E9, r == 1, 0)
#define E10(x) (obake::is_zero(x) ? 1 : 0)
        OP(10, E10, (r == 1) == (E == 1 ? v == 0 : v != 1), 0)
#define E11(x) obake::pow(x, y)
        OP(11, E11, r == v, y)
#define E12(x) (obake::fma3(x, y, std::uint64_t(5)), 1)
        OP(12, E12, r == 1, (y ^ 5u))
        default: break;
    }
    sx_reach("select");
}
HARNESS(select_lookup) { select<lib::adl_only, 1>(); }
HARNESS(select_custom) { select<lib::cust_only, 2>(); }
HARNESS(select_both) { select<lib::both, 2>(); }

// ---------------------------------------------------------------- defaults
template <typename T>
static void ints()
{
    const T a = sx::sym<T>("a"), b = sx::sym<T>("b"), c = sx::sym<T>("c");
    const T ca = a;
    sx_check(obake::is_zero(a) == (a == T(0)), "a number is zero exactly if it equals zero");
    sx_check(obake::is_zero(std::move(ca)) == (a == T(0)), "a number is zero exactly if it equals zero");
    T n = a;
    obake::negate(n);
    sx_check(static_cast<T>(n + a) == T(0), "negation yields the opposite");
    sx_check(obake::hash(a) == std::hash<T>{}(a), "the default hash is the standard one");
    sx_check(obake::byte_size(a) == sizeof(T), "the default size is the size of the object");
    const T t = obake::trim(a);
    sx_check(t == a, "trimming a number does nothing");
    sx_check(obake::diff(a, std::string("x")) == T(0), "the derivative of a number is zero");
    (void)b;
    (void)c;
}
HARNESS(default_ints)
{
    switch (sx_choose("type", 6)) {
        case 0: ints<signed char>(); break;
        case 1: ints<unsigned short>(); break;
        case 2: ints<unsigned>(); break;
        case 3: ints<unsigned long>(); break;
        case 4: ints<unsigned char>(); break;
        default: ints<unsigned long long>(); break;
    }
    sx_reach("default_ints");
}
HARNESS(default_multi)
{
    using Z = mppp::integer<1>;
    using Q = mppp::rational<1>;
    const auto a = sx::sym<std::int32_t>("a"), b = sx::sym<std::int32_t>("b"), c = sx::sym<std::int32_t>("c");
    Z x{a}, y{b}, z{c};
    const Z x0 = x, y0 = y, z0 = z;
    sx_check(obake::is_zero(x) == (a == 0), "a number is zero exactly if it equals zero");
    obake::fma3(x, y, z);
    sx_check(x == x0 + y0 * z0, "the fused operation adds the product");
    sx_check(y == y0 && z == z0, "the factors are not modified");
    Z w = x0;
    obake::fma3(w, w, z);
    sx_check(w == x0 + x0 * z0, "also if a factor is the accumulator");
    obake::negate(y);
    sx_check(y == Z{-static_cast<std::int64_t>(b)}, "negation yields the opposite");
    Q q{x0};
    obake::negate(q);
    sx_check(q == Q{Z{-static_cast<std::int64_t>(a)}}, "negation yields the opposite");
    sx_check(obake::is_zero(q) == (a == 0), "a number is zero exactly if it equals zero");
    sx_check(obake::diff(x0, std::string("x")) == Z{0} && obake::diff(q, std::string("x")) == Q{0}, "the derivative of a number is zero");
    sx_reach("default_multi");
}
// Powers of mixed types are computed in the floating-point type, as the usual promotion rules have it.
template <typename T>
static bool same_bits(T a, T b)
{
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename I>
static void mixed_pow()
{
    static const long vals[] = {0, 1, 2, 3, 5, 7, 10, 100};
    const I n = static_cast<I>(vals[sx_choose("n", 8)]);
    static const double fs[] = {0.5, 1.0, 2.0, 3.25, -1.5};
    const double d = fs[sx_choose("f", 5)];
    const float f = static_cast<float>(d);
    auto a = obake::pow(f, n);
    auto b = obake::pow(n, f);
    auto e = obake::pow(d, n);
    auto g = obake::pow(n, d);
    auto h = obake::pow(f, d);
    sx_check(std::is_same_v<decltype(a), float> && std::is_same_v<decltype(b), float> && std::is_same_v<decltype(e), double>
                 && std::is_same_v<decltype(g), double> && std::is_same_v<decltype(h), double>,
             "the type of a power is the promoted type");
    sx_check(same_bits(a, std::pow(f, static_cast<float>(n))), "float to an integral power");
    sx_check(same_bits(b, std::pow(static_cast<float>(n), f)), "integer to a float power");
    sx_check(same_bits(e, std::pow(d, static_cast<double>(n))), "double to an integral power");
    sx_check(same_bits(g, std::pow(static_cast<double>(n), d)), "integer to a double power");
}
HARNESS(default_pow)
{
    switch (sx_choose("type", 3)) {
        case 0: mixed_pow<int>(); break;
        case 1: mixed_pow<unsigned long>(); break;
        default: mixed_pow<signed char>(); break;
    }
    sx_reach("default_pow");
}

// ---------------------------------------------------------------- helpers
HARNESS(tuple_order)
{
    const auto a = sx::sym<int>("a"), c = sx::sym<int>("c");
    const auto b = sx::sym<long>("b");
    std::vector<long> seen;
    std::tuple<int, long, int> t{a, b, c};
    obake::detail::tuple_for_each(t, [&](auto &x) { seen.push_back(x); ++x; });
    sx_check(seen.size() == 3 && seen[0] == a && seen[1] == b && seen[2] == c, "the items are visited once each, in order");
    sx_check(std::get<0>(t) == static_cast<int>(static_cast<unsigned>(a) + 1u) && std::get<2>(t) == static_cast<int>(static_cast<unsigned>(c) + 1u), "the items themselves are visited");
    int n = 0;
    obake::detail::tuple_for_each(std::tuple<>{}, [&](auto &&) { ++n; });
    sx_check(n == 0, "an empty tuple has no items");
    auto arr = obake::detail::make_array(a, c, a);
    sx_check(arr.size() == 3 && arr[0] == a && arr[1] == c && arr[2] == a, "an array of the arguments in order");
    sx_reach("tuple_order");
}
HARNESS(casts)
{
    int x = sx::sym<int>("x");
    const int c = x;
    using namespace obake::detail;
    sx_check(std::is_same_v<decltype(fcast(x)), const int &> && std::is_same_v<decltype(fcast(c)), const int &>
                  && std::is_same_v<decltype(fcast(std::move(x))), int &&> && std::is_same_v<decltype(fcast(std::move(c))), const int &>,
             "only rvalues of non-constant objects stay movable");
    auto &&m = fcast(std::move(x));
    sx_check(&fcast(x) == &x && &fcast(c) == &c && &m == &x && &fcast(std::move(c)) == &c, "the object itself is handed on");
    sx_reach("casts");
}
template <typename C>
static void range_of(C &c)
{
    const C &cc = c;
    sx_check(obake::begin(c) == c.begin() && obake::end(c) == c.end(), "the ends of a container");
    sx_check(obake::begin(cc) == cc.begin() && obake::end(cc) == cc.end(), "the ends of a constant container");
    auto r = obake::detail::make_range(c.begin(), c.end());
    auto it = c.begin();
    for (auto p = obake::begin(r); p != obake::end(r); ++p, ++it) {
        sx_check(&*p == &*it, "a range of iterators has the items between them, in order");
    }
    sx_check(it == c.end(), "a range of iterators has the items between them, in order");
}
HARNESS(ranges)
{
    const auto n = sx_choose("n", 4);
    std::vector<int> v;
    std::forward_list<int> l;
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(sx::sym<int>("i"));
    }
    for (std::size_t i = 0; i < n; ++i) l.push_front(v[i]);
    range_of(v);
    range_of(l);
    int a[3] = {1, 2, 3};
    sx_check(obake::begin(a) == a && obake::end(a) == a + 3, "the ends of an array");
    auto sub = obake::detail::make_range(a + 1, a + 2);
    sx_check(obake::begin(sub) == a + 1 && obake::end(sub) == a + 2, "the ends of a part of an array");
    sx_reach("ranges");
}
