// The stack trace printed into exception messages is outside every property: replaced by an empty one.
#include <atomic>
#include <string>
namespace obake::detail
{
std::atomic_bool stack_trace_enabled{false};
std::string stack_trace_impl(unsigned) { return {}; }
}

#if defined(SX_SYMBOLIC) && !defined(SX_NATIVE)
// Parts of the C++ run time library that live in its shared object (used by std::unordered_map).
#include <unordered_map>
namespace std
{
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = h * 31u + static_cast<const unsigned char *>(p)[i];
    return h;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739};
    size_t r = primes[0];
    for (auto p : primes) {
        r = p;
        if (p >= n) break;
    }
    _M_next_resize = r;
    return r;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize) {
        if (ne + ni >= nb) return {true, _M_next_bkt(ne + ni + 1 > nb * 2 ? ne + ni + 1 : nb * 2)};
        _M_next_resize = nb;
    }
    return {false, 0};
}
} // namespace __detail
} // namespace std
#endif
