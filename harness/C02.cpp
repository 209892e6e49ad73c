// C02: out-of-range packing and unpacking requests are rejected, never wrapped.
#include "sx.hpp"
#include <stdexcept>
#include <obake/kpack.hpp>
using namespace obake;

// What a call did: 0 returned, 1 overflow_error, 2 out_of_range, 3 invalid_argument, 4 another exception.
template <typename F>
static int outcome(F f)
{
    try {
        f();
    } catch (const std::overflow_error &) {
        return 1;
    } catch (const std::out_of_range &) {
        return 2;
    } catch (const std::invalid_argument &) {
        return 3;
    } catch (...) {
        return 4;
    }
    return 0;
}

// A size: any admissible one (case split) or any inadmissible one (symbolic).
template <typename T>
static void ctor_size()
{
    const auto size = sx::sym<unsigned>("size");
    const bool bad = size > detail::kpack_max_size<T>();
    const int r = outcome([&]() { kpacker<T> kp(size); });
    sx_check(sx_or(sx_and(bad, r == 1), sx_and(!bad, r == 0)), "packer construction succeeds exactly for admissible sizes");
    const int u = outcome([&]() { kunpacker<T> ku(T(0), size); });
    sx_check(sx_or(sx_and(bad, u == 1), sx_and(!bad, u == 0)), "unpacker construction (zero) succeeds exactly for admissible sizes");
    sx_reach("ctor_size");
}
HARNESS(ctor_size_i32) { ctor_size<std::int32_t>(); }
HARNESS(ctor_size_u32) { ctor_size<std::uint32_t>(); }
HARNESS(ctor_size_i64) { ctor_size<std::int64_t>(); }
HARNESS(ctor_size_u64) { ctor_size<std::uint64_t>(); }

// Any value, in any position: accepted iff within the limits; a rejected value leaves the packer as it was.
template <typename T>
static void push_any()
{
    sx_int_mode(true);
    const unsigned size = 1u + static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>()));
    const auto [lo, hi] = detail::kpack_get_lims<T>(size);
    sx_check(lo <= T(0), "zero is in range");
    sx_check(hi >= T(2), "the range is not degenerate");
    const unsigned pos = static_cast<unsigned>(sx_choose("pos", size));
    kpacker<T> kp(size);
    T v[32];
    for (unsigned i = 0; i < pos; ++i) {
        v[i] = sx::sym<T>("v");
        sx_assume(sx_and(v[i] >= lo, v[i] <= hi));
        kp << v[i];
    }
    const T before = kp.get();
    const T n = sx::sym<T>("n");
    const bool good = sx_and(n >= lo, n <= hi);
    const int r = outcome([&]() { kp << n; });
    sx_check(sx_or(sx_and(good, r == 0), sx_and(!good, r == 1)), "a component is accepted iff it is within the limits");
    if (r == 0) {
        sx_end();
    }
    sx_check(kp.get() == before, "a rejected component leaves the packed value unchanged");
    // The packer is still usable: complete the vector and read everything back.
    for (unsigned i = pos; i < size; ++i) {
        v[i] = static_cast<T>(i % 2u ? lo : hi);
        kp << v[i];
    }
    kunpacker<T> ku(kp.get(), size);
    for (unsigned i = 0; i < size; ++i) {
        T o = 0;
        ku >> o;
        sx_check(o == v[i], "a packer that rejected a component continues correctly");
    }
    sx_reach("push_any");
}
HARNESS(push_any_i32) { push_any<std::int32_t>(); }
HARNESS(push_any_u32) { push_any<std::uint32_t>(); }
HARNESS(push_any_i64) { push_any<std::int64_t>(); }
HARNESS(push_any_u64) { push_any<std::uint64_t>(); }

// Too many components; too many reads.
template <typename T>
static void too_many()
{
    sx_int_mode(true);
    const unsigned size = static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>() + 1u));
    kpacker<T> kp(size);
    T first = 0;
    for (unsigned i = 0; i < size; ++i) {
        const auto [lo, hi] = detail::kpack_get_lims<T>(size);
        const T x = sx::sym<T>("v");
        sx_assume(sx_and(x >= lo, x <= hi));
        if (!i) first = x;
        kp << x;
    }
    const T code = kp.get();
    const T extra = sx::sym<T>("extra");
    sx_check(outcome([&]() { kp << extra; }) == 2, "a component beyond the size is rejected");
    sx_check(kp.get() == code, "... and does not change the packed value");
    kunpacker<T> ku(code, size);
    T o = 0;
    for (unsigned i = 0; i < size; ++i) {
        ku >> o;
        if (!i) sx_check(o == first, "first component");
    }
    const T last = o;
    sx_check(outcome([&]() { ku >> o; }) == 2, "reading beyond the size is rejected");
    sx_check(o == last, "... and does not write the output");
    sx_reach("too_many");
}
HARNESS(too_many_i32) { too_many<std::int32_t>(); }
HARNESS(too_many_u32) { too_many<std::uint32_t>(); }
HARNESS(too_many_i64) { too_many<std::int64_t>(); }
HARNESS(too_many_u64) { too_many<std::uint64_t>(); }

// Codes: any value of the word, for every size (0 included). Accepted iff it is between the codes of the extreme
// vectors.
template <typename T>
static void unpack_any()
{
    const unsigned size = static_cast<unsigned>(sx_choose("size", detail::kpack_max_size<T>() + 1u));
    const T n = sx::sym<T>("n");
    const int r = outcome([&]() { kunpacker<T> ku(n, size); });
    if (size == 0u) {
        sx_check(sx_or(sx_and(n == T(0), r == 0), sx_and(n != T(0), r == 3)), "with size zero only the code zero is accepted");
    } else {
        const auto [lo, hi] = detail::kpack_get_lims<T>(size);
        kpacker<T> kl(size), kh(size);
        for (unsigned i = 0; i < size; ++i) {
            kl << lo;
            kh << hi;
        }
        const bool in = sx_and(n >= kl.get(), n <= kh.get());
        sx_check(sx_or(sx_and(in, r == 0), sx_and(!in, r == 1)), "a code is accepted iff it lies between the extreme codes");
    }
    sx_reach("unpack_any");
}
HARNESS(unpack_any_i32) { unpack_any<std::int32_t>(); }
HARNESS(unpack_any_u32) { unpack_any<std::uint32_t>(); }
HARNESS(unpack_any_i64) { unpack_any<std::int64_t>(); }
HARNESS(unpack_any_u64) { unpack_any<std::uint64_t>(); }
