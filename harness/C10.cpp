// C10: checked integer conversions and additions: the exact value or an error.
#include "sx.hpp"
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <obake/detail/limits.hpp>
#include <obake/detail/safe_integral_arith.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <mp++/integer.hpp>
#include <mp++/rational.hpp>
// The operands' text in error messages is not modelled.
namespace obake::detail
{
#define SX_TS(T)                                                                                                       \
    template <>                                                                                                        \
    std::string to_string(const T &)                                                                                   \
    {                                                                                                                  \
        return {};                                                                                                     \
    }
SX_TS(char) SX_TS(signed char) SX_TS(unsigned char) SX_TS(short) SX_TS(unsigned short) SX_TS(int) SX_TS(unsigned) SX_TS(long)
SX_TS(unsigned long) SX_TS(long long) SX_TS(unsigned long long) SX_TS(__int128) SX_TS(unsigned __int128)
} // namespace obake::detail
using i128 = __int128;
using u128 = unsigned __int128;

// Independent of the library's own limits.
template <typename T>
constexpr T tmax()
{
    if constexpr (std::is_same_v<T, i128>) {
        return static_cast<i128>((u128(1) << 127) - 1);
    } else if constexpr (std::is_same_v<T, u128>) {
        return ~u128(0);
    } else {
        return std::numeric_limits<T>::max();
    }
}
template <typename T>
constexpr T tmin()
{
    if constexpr (std::is_same_v<T, i128>) {
        return -tmax<i128>() - 1;
    } else if constexpr (std::is_same_v<T, u128>) {
        return 0;
    } else {
        return std::numeric_limits<T>::min();
    }
}
template <typename T>
constexpr bool sgnd = T(-1) < T(0) && !std::is_same_v<T, bool>;

template <typename T>
static T any(const char *n)
{
    if constexpr (std::is_same_v<T, bool>) {
        return (sx::sym<std::uint8_t>(n) & 1u) != 0;
    } else {
        return sx::sym<T>(n);
    }
}
// Is n, of type U, a value of T?
template <typename T, typename U>
static bool fits(const U &n)
{
    if constexpr (sgnd<U>) {
        const bool neg = n < U(0);
        const bool below = sgnd<T> ? static_cast<i128>(n) < static_cast<i128>(tmin<T>()) : true;
        const bool above = static_cast<u128>(static_cast<i128>(n)) > static_cast<u128>(tmax<T>());
        return sx_not(sx_or(sx_and(neg, below), sx_and(sx_not(neg), above)));
    } else {
        return static_cast<u128>(n) <= static_cast<u128>(tmax<T>());
    }
}
template <typename T, typename U>
static void one()
{
    const U n = any<U>("n");
    T out = any<T>("before");
    const T before = out;
    const bool r = obake::safe_convert(out, n);
    const bool f = fits<T>(n);
    sx_check(r == f, "the conversion succeeds exactly for the values of the target type");
    if (r) {
        // Same sign and same value modulo 2**128.
        sx_check(static_cast<u128>(static_cast<i128>(out)) == static_cast<u128>(static_cast<i128>(n)), "the value is preserved");
        if constexpr (sgnd<T>) {
            if constexpr (!sgnd<U>) sx_check(!(out < T(0)), "the sign is preserved");
        } else if constexpr (sgnd<U>) {
            sx_check(!(n < U(0)), "the sign is preserved");
        }
    } else {
        sx_check(out == before, "a failed conversion leaves the target alone");
    }
    bool threw = false;
    T c{};
    try {
        c = obake::safe_cast<T>(n);
    } catch (const obake::safe_cast_failure &) {
        threw = true;
    }
    sx_check(threw == !f, "the checked cast throws exactly if the conversion fails");
    if (!threw) sx_check(c == out, "the checked cast yields the converted value");
}
template <typename T>
static void to_all()
{
    switch (sx_choose("from", 12)) {
        case 0: one<T, bool>(); break;
        case 1: one<T, char>(); break;
        case 2: one<T, signed char>(); break;
        case 3: one<T, unsigned char>(); break;
        case 4: one<T, short>(); break;
        case 5: one<T, unsigned short>(); break;
        case 6: one<T, int>(); break;
        case 7: one<T, unsigned>(); break;
        case 8: one<T, long>(); break;
        case 9: one<T, unsigned long>(); break;
        case 10: one<T, i128>(); break;
        default: one<T, u128>(); break;
    }
    sx_reach("convert");
}
HARNESS(convert_bool) { to_all<bool>(); }
HARNESS(convert_char) { to_all<char>(); }
HARNESS(convert_schar) { to_all<signed char>(); }
HARNESS(convert_uchar) { to_all<unsigned char>(); }
HARNESS(convert_short) { to_all<short>(); }
HARNESS(convert_ushort) { to_all<unsigned short>(); }
HARNESS(convert_int) { to_all<int>(); }
HARNESS(convert_unsigned) { to_all<unsigned>(); }
HARNESS(convert_long) { to_all<long>(); }
HARNESS(convert_ulong) { to_all<unsigned long>(); }
HARNESS(convert_llong) { to_all<long long>(); }
HARNESS(convert_ullong) { to_all<unsigned long long>(); }
HARNESS(convert_i128) { to_all<i128>(); }
HARNESS(convert_u128) { to_all<u128>(); }

// Additions and subtractions: exact or overflow error.
template <typename T>
static void arith()
{
    const T a = any<T>("a"), b = any<T>("b");
    const bool sub = sx_choose("sub", 2) != 0;
    bool ok;
    if constexpr (std::is_same_v<T, bool>) {
        ok = sub ? sx_not(sx_and(sx_not(a), b)) : sx_not(sx_and(a, b));
    } else if constexpr (sgnd<T>) {
        // Conditions that do not overflow themselves.
        const T mx = tmax<T>(), mn = tmin<T>();
        const T w = static_cast<T>(0);
        if (!sub) {
            const bool p = b > w;
            ok = sx_or(sx_and(p, a <= static_cast<T>(mx - (p ? b : w))), sx_and(sx_not(p), a >= static_cast<T>(mn - (p ? w : b))));
        } else {
            const bool p = b < w;
            ok = sx_or(sx_and(p, a <= static_cast<T>(mx + (p ? b : w))), sx_and(sx_not(p), a >= static_cast<T>(mn + (p ? w : b))));
        }
    } else {
        ok = sub ? a >= b : b <= static_cast<T>(tmax<T>() - a);
    }
    bool over = false;
    T r{};
    try {
        r = sub ? obake::detail::safe_int_sub(a, b) : obake::detail::safe_int_add(a, b);
    } catch (const std::overflow_error &) {
        over = true;
    }
    sx_check(over == !ok, "an overflow error exactly if the result is not a value of the type");
    if (!over) {
        const auto ux = static_cast<u128>(static_cast<i128>(a)), uy = static_cast<u128>(static_cast<i128>(b));
        sx_check(static_cast<u128>(static_cast<i128>(r)) == (sub ? ux - uy : ux + uy), "the result is exact");
    }
    sx_reach("arith");
}
HARNESS(arith_bool) { arith<bool>(); }
HARNESS(arith_char) { arith<char>(); }
HARNESS(arith_schar) { arith<signed char>(); }
HARNESS(arith_uchar) { arith<unsigned char>(); }
HARNESS(arith_short) { arith<short>(); }
HARNESS(arith_ushort) { arith<unsigned short>(); }
HARNESS(arith_int) { arith<int>(); }
HARNESS(arith_unsigned) { arith<unsigned>(); }
HARNESS(arith_long) { arith<long>(); }
HARNESS(arith_ulong) { arith<unsigned long>(); }
HARNESS(arith_llong) { arith<long long>(); }
HARNESS(arith_ullong) { arith<unsigned long long>(); }
HARNESS(arith_i128) { arith<i128>(); }
HARNESS(arith_u128) { arith<u128>(); }

// The limits of every integer type, and the number of digits.
template <typename T>
static void limits_of()
{
    namespace d = obake::detail;
    sx_check(d::limits_max<T> == tmax<T>() && d::limits_min<T> == tmin<T>(), "the limits are those of the type");
    unsigned digits = 0, digits10 = 0;
    for (u128 m = static_cast<u128>(tmax<T>()); m; m >>= 1) ++digits;
    for (u128 m = static_cast<u128>(tmax<T>()); m >= 10; m /= 10) ++digits10;
    // All numbers with that many digits are representable: 9, 99, ...
    u128 nines = 0;
    unsigned k = 0;
    while (k < 39 && nines <= (~u128(0) - 9) / 10 && nines * 10 + 9 <= static_cast<u128>(tmax<T>())) {
        nines = nines * 10 + 9;
        ++k;
    }
    sx_check(d::limits_digits<T> == static_cast<int>(digits), "the number of binary digits");
    sx_check(d::limits_digits10<T> == static_cast<int>(k) && k <= digits10 + 1, "the number of decimal digits");
    const T v = any<T>("v");
    sx_check(sx_and(v >= d::limits_min<T>, v <= d::limits_max<T>), "no value is beyond the limits");
}
HARNESS(limits)
{
    limits_of<char>();
    limits_of<signed char>();
    limits_of<unsigned char>();
    limits_of<short>();
    limits_of<unsigned short>();
    limits_of<int>();
    limits_of<unsigned>();
    limits_of<long>();
    limits_of<unsigned long>();
    limits_of<i128>();
    limits_of<u128>();
    sx_reach("limits");
}

// Conversions between integers, multiprecision integers and rationals.
template <typename T>
static void multi()
{
    using Z = mppp::integer<1>;
    using Q = mppp::rational<1>;
    const T n = any<T>("n");
    Z z;
    Q q;
    sx_check(obake::safe_convert(z, n) && z == Z{n}, "integers convert to multiprecision integers");
    sx_check(obake::safe_convert(q, z) && q.get_den().is_one() && q.get_num() == z, "integers convert to rationals");
    T back{};
    sx_check(obake::safe_convert(back, q) && back == n, "integral rationals convert back");
    const Q half{1, 2};
    Z z2{7};
    sx_check(!obake::safe_convert(z2, half) && z2 == Z{7}, "a fraction is not an integer");
    T t2{1};
    sx_check(!obake::safe_convert(t2, half) && t2 == T{1}, "a fraction is not a C++ integer");
    const auto w = sx::sym<std::int64_t>("w");
    T t3{};
    const bool r = obake::safe_convert(t3, Q{w});
    sx_check(r == fits<T>(w), "a rational converts exactly if its value is one of the type");
    if (r) sx_check(static_cast<i128>(t3) == w, "the value is preserved");
    sx_reach("multi");
}
HARNESS(multi_int) { multi<int>(); }
HARNESS(multi_unsigned) { multi<unsigned>(); }
HARNESS(multi_schar) { multi<signed char>(); }
HARNESS(multi_long) { multi<long>(); }
