// Model of boost::unordered_flat_{map,set}: a flat array scanned linearly. An element is found if the comparison
// identifies it AND its hash agrees (as in a real hash table). Growth moves the elements and frees the old array.
#pragma once
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <new>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
extern "C" bool sx_and(bool, bool);
namespace boost
{
namespace unordered
{
namespace sx_detail
{
template <typename V, typename K, bool Map>
struct slot {
    union {
        V v;
        char dummy;
    };
    bool used;
    slot() : dummy(0), used(false) {}
    ~slot() {}
};

template <typename V, typename K, bool Map, typename H, typename P>
class table
{
protected:
    using slot_t = slot<V, K, Map>;
    slot_t *m_d = nullptr;
    std::size_t m_n = 0, m_cap = 0, m_end = 0;

    static const K &key_of(const V &v)
    {
        if constexpr (Map) {
            return v.first;
        } else {
            return v;
        }
    }
    void move_to(std::size_t cap)
    {
        slot_t *d = new slot_t[cap];
        std::size_t j = 0;
        for (std::size_t i = 0; i < m_end; ++i) {
            if (m_d[i].used) {
                if constexpr (Map) {
                    using KK = std::remove_const_t<typename V::first_type>;
                    ::new (static_cast<void *>(&d[j].v)) V(std::move(const_cast<KK &>(m_d[i].v.first)), std::move(m_d[i].v.second));
                } else {
                    ::new (static_cast<void *>(&d[j].v)) V(std::move(m_d[i].v));
                }
                d[j].used = true;
                ++j;
                m_d[i].v.~V();
            }
        }
        delete[] m_d;
        m_d = d;
        m_cap = cap;
        m_end = j;
    }
    void copy_from(const table &o)
    {
        if (o.m_n) {
            m_d = new slot_t[o.m_n];
            m_cap = o.m_n;
            for (std::size_t i = 0; i < o.m_end; ++i) {
                if (o.m_d[i].used) {
                    ::new (static_cast<void *>(&m_d[m_end].v)) V(o.m_d[i].v);
                    m_d[m_end].used = true;
                    ++m_end;
                    ++m_n;
                }
            }
        }
    }
    std::size_t find_idx(const K &k) const
    {
        for (std::size_t i = 0; i < m_end; ++i) {
            if (m_d[i].used && P{}(key_of(m_d[i].v), k) && H{}(key_of(m_d[i].v)) == H{}(k)) {
                return i;
            }
        }
        return m_cap;
    }
    template <bool C>
    class iter
    {
        friend class table;
        template <bool>
        friend class iter;
        using T = std::conditional_t<C || !Map, const V, V>;
        slot_t *p = nullptr, *e = nullptr;

    public:
        using difference_type = std::ptrdiff_t;
        using value_type = V;
        using reference = T &;
        using pointer = T *;
        using iterator_category = std::forward_iterator_tag;
        iter() = default;
        iter(slot_t *a, slot_t *b) : p(a), e(b)
        {
            while (p != e && !p->used) {
                ++p;
            }
        }
        template <bool C2, std::enable_if_t<C && !C2, int> = 0>
        iter(const iter<C2> &o) : p(o.p), e(o.e)
        {
        }
        reference operator*() const { return p->v; }
        pointer operator->() const { return &p->v; }
        iter &operator++()
        {
            do {
                ++p;
            } while (p != e && !p->used);
            return *this;
        }
        iter operator++(int)
        {
            iter r(*this);
            ++*this;
            return r;
        }
        friend bool operator==(const iter &a, const iter &b) { return a.p == b.p; }
        friend bool operator!=(const iter &a, const iter &b) { return a.p != b.p; }
    };
    slot_t *fresh()
    {
        if (m_end == m_cap) {
            move_to(m_n < 2u ? 2u : m_n * 2u);
        }
        return m_d + m_end;
    }

public:
    using key_type = K;
    using value_type = V;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using hasher = H;
    using key_equal = P;
    using reference = V &;
    using const_reference = const V &;
    using iterator = iter<false>;
    using const_iterator = iter<true>;

    table() = default;
    table(const table &o) { copy_from(o); }
    table(table &&o) noexcept : m_d(o.m_d), m_n(o.m_n), m_cap(o.m_cap), m_end(o.m_end)
    {
        o.m_d = nullptr;
        o.m_n = o.m_cap = o.m_end = 0;
    }
    table &operator=(const table &o)
    {
        if (this != &o) {
            table t(o);
            swap(t);
        }
        return *this;
    }
    table &operator=(table &&o) noexcept
    {
        if (this != &o) {
            table t(std::move(o));
            swap(t);
        }
        return *this;
    }
    ~table()
    {
        clear();
        delete[] m_d;
    }
    void swap(table &o) noexcept
    {
        std::swap(m_d, o.m_d);
        std::swap(m_n, o.m_n);
        std::swap(m_cap, o.m_cap);
        std::swap(m_end, o.m_end);
    }
    friend void swap(table &a, table &b) noexcept { a.swap(b); }
    bool empty() const { return m_n == 0u; }
    std::size_t size() const { return m_n; }
    std::size_t max_size() const { return static_cast<std::size_t>(-1) / 64u; }
    std::size_t bucket_count() const { return m_cap; }
    float load_factor() const { return 0.5f; }
    float max_load_factor() const { return 0.875f; }
    void max_load_factor(float) {}
    void reserve(std::size_t n)
    {
        // Keep absurd requests out of the model: they only affect capacity.
        if (n > m_cap && n < 4096u) {
            move_to(n);
        }
    }
    void rehash(std::size_t n) { reserve(n); }
    void clear() noexcept
    {
        for (std::size_t i = 0; i < m_end; ++i) {
            if (m_d[i].used) {
                m_d[i].v.~V();
                m_d[i].used = false;
            }
        }
        m_n = m_end = 0;
    }
    iterator begin() { return iterator(m_d, m_d + m_end); }
    iterator end() { return iterator(m_d + m_end, m_d + m_end); }
    const_iterator begin() const { return const_iterator(m_d, m_d + m_end); }
    const_iterator end() const { return const_iterator(m_d + m_end, m_d + m_end); }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
    iterator find(const K &k)
    {
        const auto i = find_idx(k);
        return i == m_cap ? end() : iterator(m_d + i, m_d + m_end);
    }
    const_iterator find(const K &k) const
    {
        const auto i = find_idx(k);
        return i == m_cap ? end() : const_iterator(m_d + i, m_d + m_end);
    }
    bool contains(const K &k) const { return find_idx(k) != m_cap; }
    std::size_t count(const K &k) const { return contains(k); }
    void erase(iterator it)
    {
        it.p->v.~V();
        it.p->used = false;
        --m_n;
    }
    template <bool B = Map, std::enable_if_t<B || !B, int> = 0>
    void erase(const_iterator it)
    {
        it.p->v.~V();
        it.p->used = false;
        --m_n;
    }
    std::size_t erase(const K &k)
    {
        const auto i = find_idx(k);
        if (i == m_cap) {
            return 0;
        }
        m_d[i].v.~V();
        m_d[i].used = false;
        --m_n;
        return 1;
    }
    template <typename KK>
    std::pair<iterator, bool> insert_value(KK &&v)
    {
        const auto i = find_idx(key_of(v));
        if (i != m_cap) {
            return {iterator(m_d + i, m_d + m_end), false};
        }
        auto *s = fresh();
        ::new (static_cast<void *>(&s->v)) V(std::forward<KK>(v));
        s->used = true;
        ++m_end;
        ++m_n;
        return {iterator(s, m_d + m_end), true};
    }
    std::pair<iterator, bool> insert(const V &v) { return insert_value(v); }
    std::pair<iterator, bool> insert(V &&v) { return insert_value(std::move(v)); }
};
} // namespace sx_detail

template <typename K, typename T, typename H = std::hash<K>, typename P = std::equal_to<K>>
class unordered_flat_map : public sx_detail::table<std::pair<const K, T>, K, true, H, P>
{
    using base = sx_detail::table<std::pair<const K, T>, K, true, H, P>;

public:
    using mapped_type = T;
    using iterator = typename base::iterator;
    unordered_flat_map() = default;
    explicit unordered_flat_map(std::size_t) {}
    template <typename KK, typename... Args>
    std::pair<iterator, bool> try_emplace(KK &&k, Args &&...args)
    {
        const auto i = this->find_idx(k);
        if (i != this->m_cap) {
            return {iterator(this->m_d + i, this->m_d + this->m_end), false};
        }
        auto *s = this->fresh();
        ::new (static_cast<void *>(&s->v)) std::pair<const K, T>(std::piecewise_construct, std::forward_as_tuple(std::forward<KK>(k)),
                                                                 std::forward_as_tuple(std::forward<Args>(args)...));
        s->used = true;
        ++this->m_end;
        ++this->m_n;
        return {iterator(s, this->m_d + this->m_end), true};
    }
    template <typename KK, typename TT>
    std::pair<iterator, bool> emplace(KK &&k, TT &&t)
    {
        return try_emplace(std::forward<KK>(k), std::forward<TT>(t));
    }
    T &operator[](const K &k) { return try_emplace(k).first->second; }
    T &at(const K &k)
    {
        auto it = this->find(k);
        if (it == this->end()) {
            throw std::out_of_range("");
        }
        return it->second;
    }
};

template <typename K, typename H = std::hash<K>, typename P = std::equal_to<K>>
class unordered_flat_set : public sx_detail::table<K, K, false, H, P>
{
public:
    unordered_flat_set() = default;
    explicit unordered_flat_set(std::size_t) {}
    template <typename... Args>
    auto emplace(Args &&...args)
    {
        return this->insert(K(std::forward<Args>(args)...));
    }
};
} // namespace unordered
using unordered::unordered_flat_map;
using unordered::unordered_flat_set;
} // namespace boost
