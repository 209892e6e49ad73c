#pragma once
#include <algorithm>
namespace tbb
{
// A sort that makes no more comparisons than needed (insertion sort).
template <typename It, typename C>
inline void parallel_sort(It b, It e, const C &c)
{
    if (b == e) {
        return;
    }
    for (auto i = b + 1; i != e; ++i) {
        auto v = std::move(*i);
        auto j = i;
        while (j != b && c(v, *(j - 1))) {
            *j = std::move(*(j - 1));
            --j;
        }
        *j = std::move(v);
    }
}
} // namespace tbb
