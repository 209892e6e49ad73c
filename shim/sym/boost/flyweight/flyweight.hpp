// Model of boost::flyweight: value semantics; two flyweights are equal when the factory's hash and comparison
// identify their values (which is when the real class shares the stored object).
#pragma once
#include <functional>
#include <utility>
namespace boost
{
namespace flyweights
{
struct no_pred_ {
};
template <typename Hash = void, typename Pred = std::equal_to<>>
struct hashed_factory {
    using hash = Hash;
    using pred = Pred;
};
struct holder_marker {
};
} // namespace flyweights
template <typename T, typename Fac, typename Holder>
class flyweight
{
    // A shared value, or the default one.
    struct node {
        T v;
        std::size_t n;
    };
    node *m_p = nullptr;
    static const T &dflt()
    {
        static const T v{};
        return v;
    }
    void release() noexcept
    {
        if (m_p && --m_p->n == 0u) {
            delete m_p;
        }
        m_p = nullptr;
    }

public:
    using value_type = T;
    flyweight() = default;
    flyweight(const flyweight &o) noexcept : m_p(o.m_p)
    {
        if (m_p) {
            ++m_p->n;
        }
    }
    flyweight &operator=(const flyweight &o) noexcept
    {
        if (o.m_p) {
            ++o.m_p->n;
        }
        auto *p = o.m_p;
        release();
        m_p = p;
        return *this;
    }
    ~flyweight() { release(); }
    flyweight(const T &v) : m_p(new node{v, 1u}) {}
    flyweight(T &&v) : m_p(new node{std::move(v), 1u}) {}
    template <typename... Args, std::enable_if_t<(sizeof...(Args) > 1u), int> = 0>
    explicit flyweight(Args &&...args) : flyweight(T(std::forward<Args>(args)...))
    {
    }
    const T &get() const { return m_p ? m_p->v : dflt(); }
    operator const T &() const { return get(); }
    void swap(flyweight &o) noexcept { std::swap(m_p, o.m_p); }
    friend bool operator==(const flyweight &a, const flyweight &b)
    {
        return a.m_p == b.m_p
               || (typename Fac::pred{}(a.get(), b.get()) && typename Fac::hash{}(a.get()) == typename Fac::hash{}(b.get()));
    }
    friend bool operator!=(const flyweight &a, const flyweight &b) { return !(a == b); }
};
template <typename T, typename F, typename H>
inline void swap(flyweight<T, F, H> &a, flyweight<T, F, H> &b)
{
    a.swap(b);
}
} // namespace boost
