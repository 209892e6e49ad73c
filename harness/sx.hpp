// Interface between the harnesses and the two ways they are run: under the symbolic executor (engine/symx,
// where the functions below are interpreted by the engine) and natively, for the replay of a counterexample
// (harness/replay.cpp, where inputs are read back from a recorded assignment).
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>

extern "C" {
std::uint64_t sx_sym64(const char *, unsigned);        // a symbolic value of the given width
std::uint64_t sx_choose(const char *, std::uint64_t);  // a case split: concrete value in [0, n)
void sx_assume(bool);
void sx_check(bool, const char *);
bool sx_fork(bool);
std::uint64_t sx_concretize(std::uint64_t);
bool sx_is_symbolic(std::uint64_t);
std::uint64_t sx_ite64(bool, std::uint64_t, std::uint64_t);
bool sx_and(bool, bool);
bool sx_or(bool, bool);
bool sx_not(bool);
void sx_reach(const char *); // reachability witness
void sx_end();
void sx_print(const char *, std::uint64_t);
void sx_int_mode(bool);
void sx_thread(void (*)(void *), void *);
void sx_run_threads(std::uint64_t max_preemptions);
void sx_yield();
// Offers the engine an equality (of the low bits): used as a rewriting rule if, and only if, the solver proves it.
void sx_lemma(std::uint64_t a, std::uint64_t b, unsigned bits);
void sx_lemma_mem(const void *, const void *, std::uint64_t bytes);
void sx_observe(const char *, std::uint64_t); // a value that the native run must reproduce
}

namespace sx
{
template <typename T>
inline T sym(const char *n)
{
    if constexpr (sizeof(T) == 16) {
        const auto lo = sx_sym64(n, 64), hi = sx_sym64(n, 64);
        return static_cast<T>((static_cast<unsigned __int128>(hi) << 64) | lo);
    } else {
        return static_cast<T>(sx_sym64(n, sizeof(T) * 8u));
    }
}
template <typename T>
inline void lemma(T a, T b)
{
    sx_lemma_mem(&a, &b, sizeof(T));
}
template <typename T>
inline T ite(bool c, T a, T b)
{
    return static_cast<T>(sx_ite64(c, static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
}
} // namespace sx
#define HARNESS(name) extern "C" void harness_##name()
