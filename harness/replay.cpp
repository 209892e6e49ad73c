// Native runtime of the harness interface: replays one recorded assignment against the compiled code.
//
// Input file: one line per recorded input, in creation order: "<bits> <decimal value> <name>"; the first line is the
// entry point. Exit status: 0 every check passed, 1 a check failed (or the code threw/crashed), 3 an assumption does
// not hold, 4 the run asked for more inputs than were recorded.
#include "sx.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

struct in_t {
    unsigned bits;
    unsigned long long v;
    std::string name;
};
static std::vector<in_t> inputs;
static std::size_t pos = 0, checks = 0, failed = 0;

static void finish(int rc)
{
    std::printf("CHECKS %zu FAILED %zu USED %zu OF %zu\n", checks, failed, pos, inputs.size());
    std::fflush(stdout);
    std::_Exit(rc);
}
static unsigned long long next(const char *n)
{
    if (pos >= inputs.size()) {
        std::printf("EXHAUSTED %s\n", n);
        finish(failed ? 1 : 4);
    }
    if (inputs[pos].name != n) {
        std::printf("MISMATCH wanted %s recorded %s\n", n, inputs[pos].name.c_str());
        finish(failed ? 1 : 4);
    }
    return inputs[pos++].v;
}
extern "C" {
std::uint64_t sx_next_sched() { return pos < inputs.size() && inputs[pos].name == "sched" ? inputs[pos++].v : 0; }
std::uint64_t sx_sym64(const char *n, unsigned) { return next(n); }
std::uint64_t sx_choose(const char *n, std::uint64_t k)
{
    if (!k) finish(3);
    const auto r = next(n);
    if (r >= k) finish(3);
    return r;
}
void sx_assume(bool b)
{
    if (!b) {
        std::printf("ASSUME-FAILED\n");
        finish(failed ? 1 : 3);
    }
}
void sx_check(bool b, const char *id)
{
    ++checks;
    if (!b) {
        ++failed;
        std::printf("CHECK-FAILED %s\n", id);
        std::fflush(stdout);
    }
}
bool sx_fork(bool b) { return b; }
std::uint64_t sx_concretize(std::uint64_t v) { return v; }
bool sx_is_symbolic(std::uint64_t) { return false; }
std::uint64_t sx_ite64(bool c, std::uint64_t a, std::uint64_t b) { return c ? a : b; }
bool sx_and(bool a, bool b) { return a && b; }
bool sx_or(bool a, bool b) { return a || b; }
bool sx_not(bool a) { return !a; }
void sx_reach(const char *n) { std::printf("REACH %s\n", n); }
void sx_end() { finish(failed ? 1 : 0); }
void sx_print(const char *n, std::uint64_t v) { std::printf("PRINT %s %llu\n", n, (unsigned long long)v); }
void sx_observe(const char *n, std::uint64_t v) { std::printf("OBS %s %llu\n", n, (unsigned long long)v); }
void sx_int_mode(bool) {}
void sx_lemma(std::uint64_t, std::uint64_t, unsigned) {}
void sx_lemma_mem(const void *, const void *, std::uint64_t) {}
#if !defined(SX_NATIVE_THREADS)
void sx_thread(void (*)(void *), void *) { finish(4); }
void sx_run_threads(std::uint64_t) { finish(4); }
void sx_yield() {}
#endif
}

int main(int argc, char **argv)
{
    if (argc < 2) return 5;
    std::ifstream f(argv[1]);
    std::string entry, line;
    std::getline(f, entry);
    while (std::getline(f, line)) {
        std::istringstream is(line);
        in_t i;
        is >> i.bits >> i.v;
        is.get();
        std::getline(is, i.name);
        inputs.push_back(i);
    }
    auto fn = reinterpret_cast<void (*)()>(::dlsym(nullptr, entry.c_str()));
    if (!fn) {
        std::printf("NO-ENTRY %s\n", entry.c_str());
        return 5;
    }
    try {
        fn();
    } catch (const std::exception &e) {
        std::printf("UNCAUGHT %s\n", e.what());
        finish(1);
    } catch (...) {
        std::printf("UNCAUGHT\n");
        finish(1);
    }
    finish(failed ? 1 : 0);
}
