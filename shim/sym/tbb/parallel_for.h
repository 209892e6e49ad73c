#pragma once
#include <cstdint>
#include <tbb/blocked_range.h>
// Sequential model: how a range is split, and the order in which its parts run, is set by the harness.
//  0: one part; 1: single elements (or, for long ranges, 4 uneven parts), in order; 2: the same, in reverse order.
namespace tbb
{
namespace sx_detail
{
inline int sx_split_mode = 0;
// Boundaries of the parts of a range of n elements.
inline unsigned sx_parts(std::size_t n, std::size_t *p)
{
    if (n <= 8u) {
        for (std::size_t i = 0; i <= n; ++i) {
            p[i] = i;
        }
        return static_cast<unsigned>(n);
    }
    p[0] = 0;
    p[1] = 1;
    p[2] = n / 2u;
    p[3] = n - 1u;
    p[4] = n;
    return 4;
}
} // namespace sx_detail
template <typename R, typename F>
inline void parallel_for(const R &r, const F &f)
{
    if (r.empty()) {
        return;
    }
    if (sx_detail::sx_split_mode == 0) {
        f(r);
        return;
    }
    std::size_t p[10];
    const auto n = sx_detail::sx_parts(r.size(), p);
    using d_t = decltype(r.end() - r.begin());
    for (unsigned i = 0; i < n; ++i) {
        const auto k = sx_detail::sx_split_mode == 1 ? i : n - 1u - i;
        f(R(r.begin() + static_cast<d_t>(p[k]), r.begin() + static_cast<d_t>(p[k + 1u])));
    }
}
} // namespace tbb
