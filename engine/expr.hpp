// Hash-consed bit-vector expressions with canonicalising constructors.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;
using i128 = __int128;

enum Op : u8 {
    O_CONST, O_VAR, O_LIN, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_SLT, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_UMULO, O_SMULO
};

struct Expr {
    Op op;
    unsigned w;
    u32 id;
    unsigned aux = 0; // extract: lo
    u128 c = 0;       // const value, LIN constant
    std::vector<Expr *> k;
    std::vector<u128> co; // LIN coefficients
    size_t h = 0;
    std::vector<u32> vars; // sorted var ids
    void *z3ast = nullptr;
    u128 ulo = 0, uhi = 0; // static unsigned range
    u64 evgen = 0;
    u128 ev = 0;
    u32 depth = 0;
};
using E = Expr *;

inline u128 maskw(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (i128)v;
    v &= maskw(w);
    if (v >> (w - 1)) return (i128)(v | ~maskw(w));
    return (i128)v;
}

struct VarInfo { std::string name; unsigned w; u64 order; };
extern std::vector<VarInfo> gVars;     // by var id
extern std::vector<E> gVarExprs;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkNe(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkUMulO(E a, E b);
E mkSMulO(E a, E b);

struct Model {
    std::vector<u128> v;  // by var id
    std::vector<u8> has;
    u128 get(u32 id) const { return id < v.size() ? v[id] : 0; }
    void set(u32 id, u128 x)
    {
        if (id >= v.size()) { v.resize(id + 1, 0); has.resize(id + 1, 0); }
        v[id] = x; has[id] = 1;
    }
};
void setRewrite(E from, E to);
u128 evalExpr(E e, const Model &m);
std::string exprStr(E e, int depth = 6);
std::string u128str(u128 v);
