// Native replay of a schedule found by the symbolic executor: a run time for code compiled with -fsanitize=thread, which
// receives every memory access and every atomic operation of the code under test, runs one thread at a time, switches
// where the recorded schedule says, and looks for data races with vector clocks. Mirrors engine/symx (schedPoint, hb*).
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sched.h>
#include <thread>
#include <unordered_map>
#include <vector>
#include <pthread.h>

typedef std::uint64_t u64;
typedef std::uint32_t u32;
extern "C" {
u64 sx_next_sched(); // the next recorded scheduling choice (replay.cpp)
void sx_check(bool, const char *);
}
namespace
{
using VC = std::vector<u32>;
struct thr {
    void (*fn)(void *);
    void *arg;
    std::thread th;
    bool done = false, rel_fence = false;
    u64 wait = 0; // address of a byte to become zero
    bool wait_mutex = false;
    VC vc;
};
std::vector<thr *> ths; // 1-based: index 0 is the main thread
std::atomic<int> turn{-1};
thread_local int self = 0;
bool mt = false;
int cur = 0, preempt = 0, preempt_max = 0, same_run = 0;
const int fair = 24;
struct shadow {
    int wt = -1;
    u32 wc = 0;
    VC r;
};
std::unordered_map<u64, shadow> *sh;
std::unordered_map<u64, VC> *sync_vc;
std::unordered_map<u64, int> *mutexes;

void join_vc(VC &a, const VC &b)
{
    if (a.size() < b.size()) a.resize(b.size());
    for (std::size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]);
}
u32 at(const VC &a, std::size_t i) { return i < a.size() ? a[i] : 0; }
bool active() { return mt && self > 0; }
void wait_turn()
{
    while (turn.load() != self) sched_yield();
}
// Chooses who runs next and waits until it is this thread's turn again (unless it is done).
void sched_point()
{
    std::vector<int> cand;
    bool alldone = true;
    for (int i = 1; i < (int)ths.size(); ++i) {
        thr &t = *ths[i];
        if (t.done) continue;
        alldone = false;
        if (t.wait_mutex ? (*mutexes)[t.wait] != 0 : (t.wait && *reinterpret_cast<volatile unsigned char *>(t.wait) != 0)) continue;
        cand.push_back(i);
    }
    if (alldone) return;
    if (cand.empty()) {
        sx_check(false, "threads.deadlock");
        std::fflush(stdout);
        std::_Exit(1);
    }
    bool cur_ok = std::find(cand.begin(), cand.end(), cur) != cand.end();
    if (cur_ok && ++same_run > fair && cand.size() > 1) {
        cand.erase(std::find(cand.begin(), cand.end(), cur));
        cur_ok = false;
    }
    int pick;
    if (cur_ok && preempt >= preempt_max) pick = cur;
    else if (cand.size() == 1) pick = cand[0];
    else {
        const u64 r = sx_next_sched();
        pick = cand[r < cand.size() ? r : 0];
        if (cur_ok && pick != cur) ++preempt;
    }
    if (pick != cur) same_run = 0;
    cur = pick;
    ths[pick]->wait = 0;
    ths[pick]->wait_mutex = false;
    turn.store(pick);
    if (!ths[self ? self : pick]->done && self) wait_turn();
}
void block(u64 p, bool m)
{
    ths[self]->wait = p;
    ths[self]->wait_mutex = m;
    sched_point();
}
void acquire(u64 p)
{
    auto it = sync_vc->find(p);
    if (it != sync_vc->end()) join_vc(ths[self]->vc, it->second);
}
void release(u64 p, bool join)
{
    VC &v = ths[self]->vc;
    if (join) join_vc((*sync_vc)[p], v);
    else (*sync_vc)[p] = v;
    if ((int)v.size() <= self) v.resize(self + 1);
    ++v[self];
}
void access(const void *q, u64 n, bool wr)
{
    if (!active()) return;
    const u64 p = reinterpret_cast<u64>(q);
    VC &v = ths[self]->vc;
    bool race = false;
    for (u64 i = 0; i < n; ++i) {
        shadow &s = (*sh)[p + i];
        if (s.wt >= 0 && s.wt != self && at(v, s.wt) < s.wc) race = true;
        if (wr)
            for (int t = 0; t < (int)s.r.size(); ++t)
                if (t != self && at(v, t) < s.r[t]) race = true;
        const u32 me = at(v, self);
        if (wr) {
            s.wt = self;
            s.wc = me;
            s.r.clear();
        } else {
            if ((int)s.r.size() <= self) s.r.resize(self + 1);
            s.r[self] = me;
        }
    }
    if (race) {
        sx_check(false, "threads.race");
        std::fflush(stdout);
        std::_Exit(1);
    }
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void order(const volatile void *q, int mo, bool rd, bool wr)
{
    if (!active()) return;
    const u64 p = reinterpret_cast<u64>(q);
    if (rd && acq(mo)) acquire(p);
    if (wr) {
        if (rel(mo) || ths[self]->rel_fence) release(p, rd);
        else if (!rd) sync_vc->erase(p);
    }
}
void point()
{
    if (active()) sched_point();
}
template <typename T>
T load(const volatile T *a, int mo)
{
    point();
    order(a, mo, true, false);
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);
}
template <typename T>
void store(volatile T *a, T v, int mo)
{
    point();
    order(a, mo, false, true);
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <typename T>
T xchg(volatile T *a, T v, int mo)
{
    point();
    if (active() && v == 1) {
        while (*a == 1) block(reinterpret_cast<u64>(a), false);
    }
    const T o = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);
    order(a, mo, true, true);
    return o;
}
template <typename T>
int cas(volatile T *a, T *c, T v, int mo, int fmo)
{
    point();
    const bool ok = *a == *c;
    if (ok) __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    else *c = *a;
    order(a, ok ? mo : fmo, true, ok);
    return ok;
}
} // namespace

extern "C" {
void sx_thread(void (*f)(void *), void *arg)
{
    if (ths.empty()) ths.push_back(new thr{});
    auto *t = new thr{};
    t->fn = f;
    t->arg = arg;
    t->vc.assign(ths.size() + 1, 0);
    t->vc.back() = 1;
    ths.push_back(t);
}
void sx_run_threads(u64 maxp)
{
    sh = new std::unordered_map<u64, shadow>;
    sync_vc = new std::unordered_map<u64, VC>;
    if (!mutexes) mutexes = new std::unordered_map<u64, int>;
    preempt = same_run = 0;
    preempt_max = (int)maxp;
    cur = 0;
    turn.store(-1);
    for (int i = 1; i < (int)ths.size(); ++i) {
        ths[i]->th = std::thread([i] {
            self = i;
            wait_turn();
            ths[i]->fn(ths[i]->arg);
            ths[i]->done = true;
            bool any = false;
            for (int j = 1; j < (int)ths.size(); ++j) any = any || !ths[j]->done;
            if (any) sched_point();
            else turn.store(0);
        });
    }
    mt = true;
    sched_point();
    while (turn.load() != 0) sched_yield();
    for (int i = 1; i < (int)ths.size(); ++i) ths[i]->th.join();
    mt = false;
    ths.resize(1);
}
void sx_yield() { point(); }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!mutexes) mutexes = new std::unordered_map<u64, int>;
    const u64 p = reinterpret_cast<u64>(m);
    if (active()) {
        point();
        while ((*mutexes)[p]) block(p, true);
        acquire(p);
    }
    (*mutexes)[p] = 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    const u64 p = reinterpret_cast<u64>(m);
    if (active()) {
        point();
        release(p, false);
    }
    (*mutexes)[p] = 0;
    return 0;
}
int __wrap___cxa_guard_acquire(u64 *g)
{
    if (!mutexes) mutexes = new std::unordered_map<u64, int>;
    const u64 p = reinterpret_cast<u64>(g);
    point();
    for (;;) {
        if (*reinterpret_cast<volatile char *>(g)) {
            if (active()) acquire(p);
            return 0;
        }
        if (!(*mutexes)[p]) break;
        block(p, true);
    }
    (*mutexes)[p] = 1;
    if (active()) acquire(p);
    return 1;
}
void __wrap___cxa_guard_release(u64 *g)
{
    const u64 p = reinterpret_cast<u64>(g);
    point();
    *reinterpret_cast<volatile char *>(g) = 1;
    (*mutexes)[p] = 0;
    if (active()) release(p, false);
}
void __wrap___cxa_guard_abort(u64 *g) { (*mutexes)[reinterpret_cast<u64>(g)] = 0; }

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { access(p, n, false); }                                                              \
    void __tsan_write##n(void *p) { access(p, n, true); }                                                              \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                    \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                    \
    void __tsan_read_write##n(void *p) { access(p, n, false); access(p, n, true); }                                    \
    void __tsan_unaligned_read_write##n(void *p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, u64 n) { access(p, n, false); }
void __tsan_write_range(void *p, u64 n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, std::size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __builtin_memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, std::size_t n)
{
    access(s, n, false);
    access(d, n, true);
    return __builtin_memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, std::size_t n)
{
    access(d, n, true);
    return __builtin_memset(d, c, n);
}
void __tsan_atomic_thread_fence(int mo)
{
    if (!active()) return;
    if (acq(mo))
        for (auto &q : *sync_vc) join_vc(ths[self]->vc, q.second);
    if (rel(mo)) ths[self]->rel_fence = true;
}
void __tsan_atomic_signal_fence(int) {}
#define RMW(n, T, name, op)                                                                                            \
    T __tsan_atomic##n##_fetch_##name(volatile T *a, T v, int mo)                                                      \
    {                                                                                                                  \
        point();                                                                                                       \
        const T o = *a;                                                                                                \
        __atomic_store_n(a, static_cast<T>(op), __ATOMIC_SEQ_CST);                                                     \
        order(a, mo, true, true);                                                                                      \
        return o;                                                                                                      \
    }
#define AT(n, T)                                                                                                       \
    T __tsan_atomic##n##_load(const volatile T *a, int mo) { return load<T>(a, mo); }                                  \
    void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { store<T>(a, v, mo); }                                  \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { return xchg<T>(a, v, mo); }                            \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { return cas<T>(a, c, v, mo, f); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { return cas<T>(a, c, v, mo, f); }   \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f)                                  \
    {                                                                                                                  \
        T e = c;                                                                                                       \
        cas<T>(a, &e, v, mo, f);                                                                                       \
        return e;                                                                                                      \
    }                                                                                                                  \
    RMW(n, T, add, o + v) RMW(n, T, sub, o - v) RMW(n, T, and, o &v) RMW(n, T, or, o | v) RMW(n, T, xor, o ^ v) RMW(n, T, nand, ~(o & v))
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
}
