// Sequential model of the part of TBB used by obake (see also parallel_*.h).
#pragma once
#include <cstddef>
#include <iterator>
namespace tbb
{
template <typename T>
class blocked_range
{
    T b, e;

public:
    using const_iterator = T;
    blocked_range(T x, T y, std::size_t = 1) : b(x), e(y) {}
    T begin() const { return b; }
    T end() const { return e; }
    std::size_t size() const { return static_cast<std::size_t>(e - b); }
    bool empty() const { return !(b < e); }
    std::size_t grainsize() const { return 1; }
};
} // namespace tbb
