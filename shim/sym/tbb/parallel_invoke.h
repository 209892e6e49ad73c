#pragma once
#include <tbb/parallel_for.h>
namespace tbb
{
template <typename F, typename G>
inline void parallel_invoke(const F &f, const G &g)
{
    if (sx_detail::sx_split_mode == 2) {
        g();
        f();
    } else {
        f();
        g();
    }
}
} // namespace tbb
