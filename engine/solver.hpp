#pragma once
#include "expr.hpp"
#include <z3++.h>

enum class R { SAT, UNSAT, UNK };

struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unk = 0, intq = 0; double time = 0; };

struct Solver {
    z3::context ctx;
    SolverStats *st;
    unsigned rlimit = 40000000;
    bool intFirst = false; // prefer the integer encoding
    double extTimeout = 20; // seconds per external query
    double deadline = 0;   // absolute; external solvers are not given more than what is left
    std::unordered_map<size_t, std::pair<std::vector<u32>, R>> cache;

    explicit Solver(SolverStats *s) : st(s) {}
    z3::expr tr(E e);
    // Is the conjunction satisfiable? On SAT, values of the variables occurring in it are set in m.
    R check(std::vector<E> cs, Model *m);
    R checkBV(const std::vector<E> &cs, Model *m, unsigned rl);
    R checkInt(const std::vector<E> &cs, Model *m, double timeout);
    R checkExt(const std::vector<E> &cs, Model *m);
};
double nowSec();
