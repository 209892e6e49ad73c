// C01: Kronecker packing loses nothing.
#include "sx.hpp"
#include <obake/kpack.hpp>
using namespace obake;

// Every vector of in-range components comes back unchanged, for every size.
template <typename T>
static void roundtrip()
{
    sx_int_mode(true);
    const unsigned size = 1u + static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>()));
    const auto [lo, hi] = detail::kpack_get_lims<T>(size);
    T v[32];
    kpacker<T> kp(size);
    for (unsigned i = 0; i < size; ++i) {
        v[i] = sx::sym<T>("v");
        sx_assume(sx_and(v[i] >= lo, v[i] <= hi));
        kp << v[i];
    }
    const T code = kp.get();
    const auto [klo, khi] = detail::kpack_get_klims<T>(size);
    sx_check(sx_and(code >= klo, code <= khi), "the code of in-range components is an admissible code");
    kunpacker<T> ku(code, size);
    for (unsigned i = 0; i < size; ++i) {
        T o = 0;
        ku >> o;
        sx_check(o == v[i], "unpack(pack(v)) == v");
    }
    sx_reach("roundtrip");
}
HARNESS(roundtrip_i32) { roundtrip<std::int32_t>(); }
HARNESS(roundtrip_u32) { roundtrip<std::uint32_t>(); }
HARNESS(roundtrip_i64) { roundtrip<std::int64_t>(); }
HARNESS(roundtrip_u64) { roundtrip<std::uint64_t>(); }

// Pushing fewer components than the size equals pushing zeroes; get() in the middle is harmless; a packer that was
// copied halfway continues independently.
template <typename T>
static void partial()
{
    sx_int_mode(true);
    const unsigned size = 1u + static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>()));
    const unsigned k = static_cast<unsigned>(sx_choose("pushed", size));
    const auto [lo, hi] = detail::kpack_get_lims<T>(size);
    T v[32];
    kpacker<T> kp(size);
    for (unsigned i = 0; i < k; ++i) {
        v[i] = sx::sym<T>("v");
        sx_assume(sx_and(v[i] >= lo, v[i] <= hi));
        kp << v[i];
    }
    const T part = kp.get();
    for (unsigned i = k; i < size; ++i) {
        kp << T(0);
    }
    sx_check(part == kp.get(), "missing components are zeroes");
    kunpacker<T> ku(part, size);
    T o = 0;
    for (unsigned i = 0; i < size; ++i) {
        ku >> o;
        sx_check(o == (i < k ? v[i] : T(0)), "unpack after a partial pack");
    }
    sx_reach("partial");
}
HARNESS(partial_i32) { partial<std::int32_t>(); }
HARNESS(partial_u32) { partial<std::uint32_t>(); }
HARNESS(partial_i64) { partial<std::int64_t>(); }
HARNESS(partial_u64) { partial<std::uint64_t>(); }

// Two different in-range vectors never share a code, and codes add up componentwise as long as the sums are in range
// (what makes multiplication of monomials a single addition).
template <typename T>
static void additive()
{
    sx_int_mode(true);
    const unsigned size = 1u + static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>()));
    const auto [lo, hi] = detail::kpack_get_lims<T>(size);
    kpacker<T> ka(size), kb(size), kc(size);
    for (unsigned i = 0; i < size; ++i) {
        const auto a = sx::sym<T>("a"), c = sx::sym<T>("c");
        sx_assume(sx_and(a >= lo, a <= hi));
        sx_assume(sx_and(c >= lo, c <= hi));
        // b = c - a, in range.
        if constexpr (std::is_signed_v<T>) {
            sx_assume(sx_and(static_cast<__int128>(c) - a >= lo, static_cast<__int128>(c) - a <= hi));
        } else {
            sx_assume(c >= a);
        }
        const T b = static_cast<T>(c - a);
        ka << a;
        kb << b;
        kc << c;
    }
    sx_check(static_cast<T>(ka.get() + kb.get()) == kc.get(), "pack(a) + pack(b) == pack(a + b)");
    sx_reach("additive");
}
HARNESS(additive_i32) { additive<std::int32_t>(); }
HARNESS(additive_u32) { additive<std::uint32_t>(); }
HARNESS(additive_i64) { additive<std::int64_t>(); }
HARNESS(additive_u64) { additive<std::uint64_t>(); }

// The other way around: the components read from any admissible code reproduce the code.
#if defined(SX_THOROUGH)
#define SX_DECODE_MAX 4
#else
#define SX_DECODE_MAX 2
#endif
template <typename T>
static void decode()
{
    sx_int_mode(true);
    const unsigned size = 1u + static_cast<unsigned>(sx_choose("size", SX_DECODE_MAX));
    const auto [klo, khi] = detail::kpack_get_klims<T>(size);
    const T code = sx::sym<T>("code");
    sx_assume(sx_and(code >= klo, code <= khi));
    kunpacker<T> ku(code, size);
    T sum = 0, prod = 1;
    for (unsigned i = 0; i < size; ++i) {
        T o = 0;
        ku >> o;
        sum = static_cast<T>(static_cast<std::make_unsigned_t<T>>(sum)
                             + static_cast<std::make_unsigned_t<T>>(o) * static_cast<std::make_unsigned_t<T>>(prod));
        prod = static_cast<T>(static_cast<std::make_unsigned_t<T>>(prod)
                              * static_cast<std::make_unsigned_t<T>>(detail::kpack_get_delta<T>(size)));
    }
    sx_check(sum == code, "the components of a code reproduce the code");
    sx_reach("decode");
}
HARNESS(decode_i32) { decode<std::int32_t>(); }
HARNESS(decode_u32) { decode<std::uint32_t>(); }
HARNESS(decode_i64) { decode<std::int64_t>(); }
HARNESS(decode_u64) { decode<std::uint64_t>(); }
