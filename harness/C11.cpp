// C11: decimal representation of integers.
#include "sx.hpp"
#include <limits>
#include <type_traits>
#include <vector>
#include <string>
#include <obake/detail/to_string.hpp>
using i128 = __int128;
using u128 = unsigned __int128;

template <typename T>
constexpr u128 umax()
{
    if constexpr (std::is_same_v<T, i128>) {
        return (u128(1) << 127) - 1;
    } else if constexpr (std::is_same_v<T, u128>) {
        return ~u128(0);
    } else {
        return static_cast<u128>(std::numeric_limits<T>::max());
    }
}
// All the integers with a given number of digits and sign, given by their digits.
template <typename T>
static void decimal()
{
    constexpr bool sg = T(-1) < T(0);
    sx_int_mode(true);
    unsigned maxd = 0;
    for (u128 m = umax<T>(); m; m /= 10) ++maxd;
    const bool neg = sg && sx_choose("neg", 2) != 0;
    unsigned L;
#if defined(SX_THOROUGH)
    L = 1u + static_cast<unsigned>(sx_choose("digits", maxd));
#else
    // The shortest and the longest numbers, and those around 19 digits (a machine word).
    if (maxd < 20) {
        L = 1u + static_cast<unsigned>(sx_choose("digits", maxd));
    } else {
        const unsigned some[] = {1, 2, 10, 19, 20, 38, 39};
        L = some[sx_choose("digits", maxd < 30 ? 5 : 7)];
        if (L > maxd) return;
    }
#endif
    const u128 lim = umax<T>() + (neg ? 1 : 0);
    // The digits, the most significant first; vs[i] is the number made of the first i + 1.
    using W = std::conditional_t<sizeof(T) == 16, u128, std::conditional_t<sizeof(T) == 8, unsigned long, unsigned>>;
    std::vector<W> vs;
    std::vector<W> ds;
    std::string exp;
    W v = 0;
    std::vector<std::uint8_t> top;
    for (u128 m = lim; m; m /= 10) top.insert(top.begin(), static_cast<std::uint8_t>(m % 10));
    unsigned pos = maxd;
    if (L == maxd) {
#if defined(SX_THOROUGH)
        pos = static_cast<unsigned>(sx_choose("pos", maxd + 1));
#else
        const unsigned somep[] = {0, 1, maxd - 2, maxd - 1, maxd};
        if (maxd < 12) {
            pos = static_cast<unsigned>(sx_choose("pos", maxd + 1));
        } else {
            pos = somep[sx_choose("pos", 5)];
        }
#endif
        if (pos < maxd && top[pos] == 0) return;
        if (pos == 0 && top[0] == 1 && maxd > 1) return;
    }
    for (unsigned i = 0; i < L; ++i) {
        auto d = sx::sym<std::uint8_t>("d");
        sx_assume(sx_and(d <= 9, d >= (i == 0 && (L > 1 || neg) ? 1 : 0)));
        exp.push_back(static_cast<char>('0' + d));
        // The numbers with the largest number of digits, up to the limit: the digits agree with those of the limit up
        // to a position where the digit is smaller.
        if (L == maxd) {
            if (i < pos) {
                sx_assume(d == top[i]);
                d = top[i];
            } else if (i == pos) {
                sx_assume(d < top[i]);
            }
        }
        v = static_cast<W>(v * 10u + d);
        vs.push_back(v);
        ds.push_back(d);
    }
    if constexpr (sizeof(T) >= 4) {
        for (unsigned i = L - 1; i >= 1; --i) {
            sx::lemma<W>(vs[i] / 10u, vs[i - 1]);
            sx::lemma<W>(vs[i] % 10u, ds[i]);
        }
        sx::lemma<W>(vs[0] / 10u, 0);
        sx::lemma<W>(vs[0] % 10u, ds[0]);
    }
    if (neg) exp.insert(exp.begin(), '-');
    const T n = neg ? static_cast<T>(W(0) - v) : static_cast<T>(v);
    const std::string s = obake::detail::to_string(n);
    sx_check(s.size() == exp.size(), "the right number of characters");
    bool ok = s.size() == exp.size();
    for (unsigned i = 0; ok && i < s.size(); ++i) {
        sx_check(s[i] == exp[i], "each character is the decimal digit (or sign) of the number");
    }
    sx_reach("decimal");
}
// Numbers with zeros between (and after) a one and another digit: also for code that does not divide by ten step by step.
template <typename T>
static void sparse()
{
    sx_int_mode(true);
    unsigned maxd = 0;
    for (u128 m = umax<T>(); m; m /= 10) ++maxd;
    const unsigned L = 2u + static_cast<unsigned>(sx_choose("digits", maxd - 2u));
    const unsigned q = L > 24u || sx_choose("where", 2) ? 0u : (L - 1u) / 2u;
    const unsigned d = 1;
    const auto e = sx::sym<std::uint8_t>("e");
    sx_assume(e <= 9);
    std::string exp(L, '0');
    exp[0] = static_cast<char>('0' + d);
    exp[L - 1u - q] = static_cast<char>('0' + e);
    T p = 1, r = 1;
    for (unsigned i = 0; i + 1u < L; ++i) p = static_cast<T>(p * 10u);
    for (unsigned i = 0; i < q; ++i) r = static_cast<T>(r * 10u);
    const std::string s = obake::detail::to_string(static_cast<T>(d * p + e * r));
    sx_check(s.size() == exp.size(), "the right number of characters");
    for (unsigned i = 0; i < L && i < s.size(); ++i) {
        sx_check(s[i] == exp[i], "each character is the decimal digit (or sign) of the number");
    }
    sx_reach("sparse");
}
HARNESS(sparse_ullong) { sparse<unsigned long long>(); }
HARNESS(sparse_u128) { sparse<u128>(); }
HARNESS(decimal_char) { decimal<char>(); }
HARNESS(decimal_schar) { decimal<signed char>(); }
HARNESS(decimal_uchar) { decimal<unsigned char>(); }
HARNESS(decimal_short) { decimal<short>(); }
HARNESS(decimal_ushort) { decimal<unsigned short>(); }
HARNESS(decimal_int) { decimal<int>(); }
HARNESS(decimal_unsigned) { decimal<unsigned>(); }
HARNESS(decimal_long) { decimal<long>(); }
HARNESS(decimal_ulong) { decimal<unsigned long>(); }
HARNESS(decimal_llong) { decimal<long long>(); }
HARNESS(decimal_ullong) { decimal<unsigned long long>(); }
HARNESS(decimal_i128) { decimal<i128>(); }
HARNESS(decimal_u128) { decimal<u128>(); }
