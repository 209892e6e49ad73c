#pragma once
#include <tbb/parallel_for.h>
namespace tbb
{
// 0: one part; 1: several parts, accumulated by the same body (as when nothing is stolen);
// 2: every part starts from the identity, joined from the left; 3: the same, joined from the right.
template <typename R, typename V, typename F, typename J>
inline V parallel_reduce(const R &r, const V &id, const F &f, const J &j)
{
    if (r.empty()) {
        return id;
    }
    if (sx_detail::sx_split_mode == 0) {
        return f(r, id);
    }
    std::size_t p[10];
    const auto n = sx_detail::sx_parts(r.size(), p);
    using d_t = decltype(r.end() - r.begin());
    auto part = [&](unsigned k) {
        return R(r.begin() + static_cast<d_t>(p[k]), r.begin() + static_cast<d_t>(p[k + 1u]));
    };
    if (sx_detail::sx_split_mode == 1) {
        V acc = id;
        for (unsigned k = 0; k < n; ++k) {
            acc = f(part(k), acc);
        }
        return acc;
    }
    if (sx_detail::sx_split_mode == 2) {
        V acc = f(part(0), id);
        for (unsigned k = 1; k < n; ++k) {
            acc = j(acc, f(part(k), id));
        }
        return acc;
    }
    V acc = f(part(n - 1u), id);
    for (unsigned k = n - 1u; k > 0; --k) {
        acc = j(f(part(k - 1u), id), acc);
    }
    return acc;
}
} // namespace tbb
