// C12: locks and global storage shared by threads, under every schedule.
#include "sx.hpp"
#include <atomic>
#include <cstddef>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <obake/detail/atomic_flag_array.hpp>
#include <obake/detail/atomic_lock_guard.hpp>
#include <obake/detail/fw_utils.hpp>

#if defined(SX_THOROUGH)
#define PRE 4
#else
#define PRE 2
#endif
using obake::detail::atomic_flag_array;
using obake::detail::atomic_lock_guard;

// ---------------------------------------------------------------- the lock
struct shared_t {
    std::atomic_flag *flag;
    int *count;   // protected by the flag
    int *inside;  // threads in the section
    int rounds;
    bool raise;   // leave the section with an exception
};
static void section(void *p)
{
    auto &s = *static_cast<shared_t *>(p);
    for (int i = 0; i < s.rounds; ++i) {
        try {
            atomic_lock_guard g(*s.flag);
            sx_check(*s.inside == 0, "at most one thread is in a section guarded by a lock");
            *s.inside = 1;
            const int c = *s.count;
            sx_yield();
            *s.count = c + 1;
            *s.inside = 0;
            if (s.raise) throw std::domain_error("");
        } catch (const std::domain_error &) {
        }
    }
}
static void mutex_test(int nthr, int rounds, bool raise)
{
    atomic_flag_array fl(1);
    int count = 0, inside = 0;
    shared_t s[3];
    for (int i = 0; i < nthr; ++i) {
        s[i] = shared_t{&fl[0], &count, &inside, rounds, raise && i == 0};
        sx_thread(section, &s[i]);
    }
    sx_run_threads(PRE);
    sx_check(count == nthr * rounds, "no update made under the lock is lost");
    sx_check(!fl[0].test_and_set(), "the lock is free again once its holders are gone");
    sx_reach("mutex");
}
HARNESS(mutex_2) { mutex_test(2, 2, false); }
HARNESS(mutex_2_exception) { mutex_test(2, 2, true); }
HARNESS(mutex_3) { mutex_test(3, 1, false); }
HARNESS(mutex_3_exception) { mutex_test(3, 1, true); }

// Different flags of an array do not exclude each other, and the same one does.
HARNESS(array_locks)
{
    const auto n = 1 + sx_choose("n", 4);
    const auto i = sx_choose("i", n), j = sx_choose("j", n);
    atomic_flag_array fl(n);
    int count[2] = {0, 0}, inside[2] = {0, 0};
    shared_t a{&fl[i], &count[0], &inside[0], 1, false}, b = a;
    b.flag = &fl[j];
    if (i != j) {
        b.count = &count[1];
        b.inside = &inside[1];
    }
    sx_thread(section, &a);
    sx_thread(section, &b);
    sx_run_threads(PRE);
    sx_check(count[0] + count[1] == 2, "no update is lost");
    sx_reach("array_locks");
}
// A lock of one flag can be taken while another is held.
HARNESS(array_independent)
{
    const auto n = 2 + sx_choose("n", 4);
    const auto i = sx_choose("i", n), j = sx_choose("j", n);
    if (i == j) return;
    atomic_flag_array fl(n);
    {
        atomic_lock_guard g(fl[i]);
        for (std::size_t k = 0; k < n; ++k) {
            if (k != i) {
                sx_check(!fl[k].test_and_set(), "holding one flag does not set another");
                fl[k].clear();
            }
        }
        atomic_lock_guard g2(fl[j]);
        sx_check(fl[i].test_and_set() && fl[j].test_and_set(), "the flags of held locks are set");
    }
    sx_check(!fl[i].test_and_set() && !fl[j].test_and_set(), "the flags of released locks are clear");
    sx_reach("array_independent");
}
// Any flag of an array of any size (up to a bound) is clear at first and is changed on its own.
HARNESS(array_flags)
{
    const auto n = sx_choose("n", 10);
    atomic_flag_array fl(n);
    std::size_t set = 0;
    for (std::size_t k = 0; k < n; ++k) {
        sx_check(!fl[k].test(), "flags are clear at first");
        if (sx_choose("set", 2)) {
            sx_check(!fl[k].test_and_set(), "flags are clear at first");
            set |= std::size_t(1) << k;
        }
    }
    const auto &cfl = fl;
    for (std::size_t k = 0; k < n; ++k) {
        sx_check(cfl[k].test() == ((set >> k) & 1), "each flag has its own state");
        if (k + 1 < n) sx_check(&fl[k] + 1 == &fl[k + 1], "the flags are an array");
    }
    sx_reach("array_flags");
}
HARNESS(array_size)
{
    const auto n = sx::sym<std::size_t>("n");
    // Sizes whose storage does not fit the address space are refused; so are those the allocator refuses.
    sx_assume(n > (std::size_t(1) << 62));
    bool refused = false;
    try {
        atomic_flag_array fl(n);
    } catch (const std::bad_alloc &) {
        refused = true;
    }
    sx_check(refused, "an array that cannot be allocated is refused with bad_alloc");
    sx_reach("array_size");
}

// ---------------------------------------------------------------- storage of global objects
struct A {
    long v[3];
};
struct B {
    char c;
};
static int destroyed[2];
struct fetch_t {
    int kind;
    std::pair<void *, bool> r;
};
static void fetch(void *p)
{
    auto &f = *static_cast<fetch_t *>(p);
    if (f.kind == 0) {
        f.r = obake::detail::fw_fetch_storage(typeid(A), sizeof(A), [](void *) { ++destroyed[0]; });
    } else {
        f.r = obake::detail::fw_fetch_storage(typeid(B), sizeof(B), [](void *) { ++destroyed[1]; });
    }
    // The storage is usable.
    if (f.r.second) {
        unsigned char *c = static_cast<unsigned char *>(f.r.first);
        for (std::size_t i = 0; i < (f.kind == 0 ? sizeof(A) : sizeof(B)); ++i) c[i] = static_cast<unsigned char>(i);
    }
}
static void storage(int n)
{
    fetch_t f[3];
    for (int i = 0; i < n; ++i) {
        f[i].kind = static_cast<int>(sx_choose("type", 2));
        sx_thread(fetch, &f[i]);
    }
    sx_run_threads(PRE);
    int news[2] = {0, 0}, uses[2] = {0, 0};
    for (int i = 0; i < n; ++i) {
        news[f[i].kind] += f[i].r.second;
        ++uses[f[i].kind];
        sx_check(f[i].r.first != nullptr, "there is storage");
        for (int j = 0; j < i; ++j) {
            sx_check((f[i].r.first == f[j].r.first) == (f[i].kind == f[j].kind), "one storage for each type");
        }
    }
    for (int k = 0; k < 2; ++k) sx_check(news[k] == (uses[k] ? 1 : 0), "the storage of a type is new for exactly one of its users");
    sx_reach("storage");
}
HARNESS(storage_2) { storage(2); }
HARNESS(storage_3) { storage(3); }

// A failed allocation leaves no trace: the next user of the type gets new storage.
static bool fail_alloc = false;
static void *alloc_array(std::size_t n)
{
    if (fail_alloc) {
        fail_alloc = false;
        throw std::bad_alloc();
    }
    return ::operator new(n);
}
#if defined(SX_NATIVE)
void *operator new[](std::size_t n) { return alloc_array(n); }
void operator delete[](void *p) noexcept { ::operator delete(p); }
void operator delete[](void *p, std::size_t) noexcept { ::operator delete(p); }
#else
extern "C" void *sxo__Znam(std::size_t n) { return alloc_array(n); }
#endif
HARNESS(storage_no_memory)
{
    const bool other = sx_choose("other", 2) != 0;
    fetch_t f{1, {}};
    if (other) fetch(&f);
    fail_alloc = true;
    bool failed = false;
    try {
        obake::detail::fw_fetch_storage(typeid(A), sizeof(A), [](void *) {});
    } catch (const std::bad_alloc &) {
        failed = true;
    }
    sx_check(failed, "a failed allocation is reported");
    fetch_t g{0, {}}, h{0, {}};
    fetch(&g);
    fetch(&h);
    sx_check(g.r.second && !h.r.second && g.r.first == h.r.first && g.r.first, "the next user of the type gets new storage");
    if (other) {
        const auto before = f.r.first;
        fetch(&f);
        sx_check(!f.r.second && f.r.first == before && before != g.r.first, "the storage of other types is not affected");
    }
    sx_reach("storage_no_memory");
}

// The holder of a global object: one object, constructed once.
static int built = 0;
struct obj {
    obj() : v(42)
    {
        ++built;
    }
    int v;
};
struct hold_t {
    obj *o;
};
static void hold(void *p)
{
    auto &h = *static_cast<hold_t *>(p);
    h.o = &obake::detail::fw_holder_class<obj>::get();
    sx_check(h.o->v == 42, "the object is constructed before anyone uses it");
}
HARNESS(holder)
{
    built = 0;
    hold_t h[2];
    for (auto &x : h) sx_thread(hold, &x);
    sx_run_threads(PRE);
    sx_check(h[0].o == h[1].o && built == 1, "one object for all the threads");
    sx_check(&obake::detail::fw_holder_class<obj>::get() == h[0].o && built == 1, "the object is kept");
    sx_reach("holder");
}
