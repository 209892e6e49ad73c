// C13: the random generator: the reference sequence of xoroshiro128+ (24, 16, 37), from every state.
#include "sx.hpp"
#include <cstdint>
#include <type_traits>
#include <obake/detail/xoroshiro128_plus.hpp>
using obake::detail::xoroshiro128_plus;
using i128 = __int128;
using u128 = unsigned __int128;
using u64 = std::uint64_t;

// The reference (prng.di.unimi.it/xoroshiro128plus.c).
static u64 ref_rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 ref_next(u64 *s)
{
    const u64 s0 = s[0];
    u64 s1 = s[1];
    const u64 result = s0 + s1;
    s1 ^= s0;
    s[0] = ref_rotl(s0, 24) ^ s1 ^ (s1 << 16);
    s[1] = ref_rotl(s1, 37);
    return result;
}
HARNESS(sequence)
{
    u64 s[2] = {sx::sym<u64>("s0"), sx::sym<u64>("s1")};
    xoroshiro128_plus g(s[0], s[1]);
    for (int i = 0; i < 4; ++i) {
        const auto e = ref_next(s);
        const auto r = (i & 1) ? g() : g.next();
        sx_check(r == e, "each number is the one of the reference generator");
        sx_check(g.m_state[0] == s[0] && g.m_state[1] == s[1], "each state is the one of the reference generator");
    }
    sx_reach("sequence");
}
HARNESS(rotation)
{
    const auto x = sx::sym<u64>("x");
    const auto k = static_cast<int>(1 + sx_choose("k", 63));
    const auto r = xoroshiro128_plus::rotl(x, k);
    const auto b = static_cast<unsigned>(sx::sym<std::uint8_t>("b"));
    sx_assume(b < 64);
    sx_check(((x >> b) & 1) == ((r >> ((b + static_cast<unsigned>(k)) & 63u)) & 1), "every bit is rotated to its place");
    sx_reach("rotation");
}
// The states are permuted, and zero is the only state that leads to zero: no two seeds ever meet.
HARNESS(permutation)
{
    const u64 a0 = sx::sym<u64>("a0"), a1 = sx::sym<u64>("a1"), b0 = sx::sym<u64>("b0"), b1 = sx::sym<u64>("b1");
    xoroshiro128_plus a(a0, a1), b(b0, b1);
    a.next();
    b.next();
    const bool same_before = sx_and(a0 == b0, a1 == b1);
    const bool same_after = sx_and(a.m_state[0] == b.m_state[0], a.m_state[1] == b.m_state[1]);
    sx_check(same_before == same_after, "distinct states have distinct successors");
    const bool zero_before = sx_and(a0 == 0, a1 == 0), zero_after = sx_and(a.m_state[0] == 0, a.m_state[1] == 0);
    sx_check(zero_before == zero_after, "only the zero state leads to the zero state");
    sx_reach("permutation");
}
template <typename T>
static void random_of()
{
    u64 s[2] = {sx::sym<u64>("s0"), sx::sym<u64>("s1")};
    xoroshiro128_plus g(s[0], s[1]);
    for (int i = 0; i < 2; ++i) {
        const T r = g.random<T>();
        if constexpr (sizeof(T) == 16) {
            const auto hi = ref_next(s), lo = ref_next(s);
            sx_check(static_cast<u128>(r) == ((static_cast<u128>(hi) << 64) | lo), "wide integers consist of consecutive numbers of the sequence, the first being the most significant");
        } else {
            sx_check(r == static_cast<T>(ref_next(s)), "integers are the low bits of the next number of the sequence");
        }
        sx_check(g.m_state[0] == s[0] && g.m_state[1] == s[1], "no number of the sequence is skipped");
    }
}
HARNESS(integers)
{
    switch (sx_choose("type", 12)) {
        case 0: random_of<char>(); break;
        case 1: random_of<signed char>(); break;
        case 2: random_of<unsigned char>(); break;
        case 3: random_of<short>(); break;
        case 4: random_of<unsigned short>(); break;
        case 5: random_of<int>(); break;
        case 6: random_of<unsigned>(); break;
        case 7: random_of<long>(); break;
        case 8: random_of<unsigned long>(); break;
        case 9: random_of<long long>(); break;
        case 10: random_of<i128>(); break;
        default: random_of<u128>(); break;
    }
    sx_reach("integers");
}
// Every value of the type is generated from some seed (and so is every pair of values for narrow types).
template <typename T>
static void range_of()
{
    const T want = sx::sym<T>("want");
    xoroshiro128_plus g(static_cast<u64>(want), 0);
    if constexpr (sizeof(T) < 16) {
        sx_check(g.random<T>() == want, "every value of the type is generated");
    }
}
HARNESS(range)
{
    range_of<signed char>();
    range_of<unsigned short>();
    range_of<int>();
    range_of<unsigned long>();
    sx_check(xoroshiro128_plus::min() == 0 && xoroshiro128_plus::max() == ~u64(0), "the advertised range of the generator is that of 64-bit integers");
    sx_reach("range");
}
