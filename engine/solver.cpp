#include "solver.hpp"
#include <chrono>
#include <functional>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

double nowSec()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static z3::expr bvc(z3::context &c, u128 v, unsigned w) { return c.bv_val(u128str(v).c_str(), w); }

z3::expr Solver::tr(E e)
{
    if (e->z3ast) return z3::expr(ctx, (Z3_ast)e->z3ast);
    auto asB = [&](E x) { return tr(x); };
    auto b2bv = [&](z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); };
    auto bv2b = [&](z3::expr b) { return b == ctx.bv_val(1, 1); };
    z3::expr r(ctx);
    auto K = [&](int i) { return asB(e->k[i]); };
    // width-1 expressions are represented as z3 Bool
    const bool b1 = e->w == 1;
    auto bvK = [&](int i) { z3::expr x = K(i); return x.is_bool() ? b2bv(x) : x; };
    switch (e->op) {
        case O_CONST: r = b1 ? ctx.bool_val(e->c != 0) : bvc(ctx, e->c, e->w); break;
        case O_VAR: {
            std::string n = "v" + std::to_string(e->aux);
            r = b1 ? ctx.bool_const(n.c_str()) : ctx.bv_const(n.c_str(), e->w);
            break;
        }
        case O_LIN: {
            bool first = true;
            u128 M = maskw(e->w);
            if (e->c) { r = bvc(ctx, e->c, e->w); first = false; }
            // positive terms first
            for (int pass = 0; pass < 2; ++pass)
                for (size_t i = 0; i < e->k.size(); ++i) {
                    u128 co = e->co[i];
                    bool neg = co > (M >> 1);
                    if (neg != (pass == 1)) continue;
                    u128 a = neg ? ((u128)0 - co) & M : co;
                    z3::expr t = K(i);
                    if (a != 1) {
                        if (!(a & (a - 1))) { unsigned s = 0; while (!((a >> s) & 1)) ++s; t = z3::shl(t, bvc(ctx, s, e->w)); }
                        else t = t * bvc(ctx, a, e->w);
                    }
                    if (first) { r = neg ? -t : t; first = false; }
                    else r = neg ? r - t : r + t;
                }
            break;
        }
        case O_MUL: r = K(0); for (size_t i = 1; i < e->k.size(); ++i) r = r * K(i); break;
        case O_UDIV: r = z3::udiv(K(0), K(1)); break;
        case O_SDIV: r = K(0) / K(1); break;
        case O_UREM: r = z3::urem(K(0), K(1)); break;
        case O_SREM: r = z3::srem(K(0), K(1)); break;
        case O_AND: r = b1 ? (K(0) && K(1)) : (K(0) & K(1)); break;
        case O_OR: r = b1 ? (K(0) || K(1)) : (K(0) | K(1)); break;
        case O_XOR:
            if (b1) {
                if (e->k[1]->op == O_CONST) r = e->k[1]->c ? !K(0) : K(0);
                else r = K(0) != K(1);
            } else r = K(0) ^ K(1);
            break;
        case O_SHL: r = z3::shl(K(0), K(1)); break;
        case O_LSHR: r = z3::lshr(K(0), K(1)); break;
        case O_ASHR: r = z3::ashr(K(0), K(1)); break;
        case O_EQ: r = K(0) == K(1); break;
        case O_ULT: r = z3::ult(bvK(0), bvK(1)); break;
        case O_SLT: r = bvK(0) < bvK(1); break;
        case O_ITE: r = z3::ite(K(0), K(1), K(2)); break;
        case O_ZEXT: r = e->k[0]->w == 1 ? z3::ite(K(0), bvc(ctx, 1, e->w), bvc(ctx, 0, e->w)) : z3::zext(K(0), e->w - e->k[0]->w); break;
        case O_SEXT: r = e->k[0]->w == 1 ? z3::ite(K(0), bvc(ctx, maskw(e->w), e->w), bvc(ctx, 0, e->w)) : z3::sext(K(0), e->w - e->k[0]->w); break;
        case O_EXTRACT: r = bvK(0).extract(e->aux + e->w - 1, e->aux); if (b1) r = bv2b(r); break;
        case O_CONCAT: r = z3::concat(bvK(0), bvK(1)); break;
        case O_UMULO: r = !z3::expr(ctx, Z3_mk_bvmul_no_overflow(ctx, K(0), K(1), false)); break;
        case O_SMULO:
            r = !(z3::expr(ctx, Z3_mk_bvmul_no_overflow(ctx, K(0), K(1), true)) && z3::expr(ctx, Z3_mk_bvmul_no_underflow(ctx, K(0), K(1))));
            break;
        default: abort();
    }
    if (r.is_bool() != b1) { fprintf(stderr, "sort mismatch in %s\n", exprStr(e).c_str()); abort(); }
    Z3_inc_ref(ctx, r);
    e->z3ast = (Z3_ast)r;
    return r;
}

R Solver::checkBV(const std::vector<E> &cs, Model *m, unsigned rl)
{
    try {
        z3::solver s(ctx, "QF_BV");
        z3::params p(ctx);
        p.set("rlimit", rl);
        s.set(p);
        std::vector<u32> vs;
        for (E c : cs) { s.add(tr(c)); for (u32 v : c->vars) vs.push_back(v); }
        z3::check_result r = s.check();
        if (r == z3::unsat) return R::UNSAT;
        if (r == z3::unknown) return R::UNK;
        if (m) {
            z3::model md = s.get_model();
            std::sort(vs.begin(), vs.end());
            vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
            for (u32 v : vs) {
                z3::expr ve = md.eval(tr(gVarExprs[v]), true);
                u128 val = 0;
                if (ve.is_bool()) val = ve.is_true() ? 1 : 0;
                else {
                    std::string str = Z3_get_numeral_string(ctx, ve);
                    for (char ch : str) val = val * 10 + (ch - '0');
                }
                m->set(v, val);
            }
        }
        return R::SAT;
    } catch (z3::exception &ex) {
        return R::UNK;
    }
}

// ---------------------------------------------------------------------------------------------
// Integer encoding: every bit-vector expression is translated to an integer term together with a
// proven range; wrap-around is made explicit with a quotient variable only where the range does
// not exclude it. Non-linear or bitwise operators that have no linear meaning are not supported
// (the query is then left to the bit-vector back ends).
// Big integers are needed for bounds: use long-double-free 256-bit arithmetic (_BitInt).
using B = _BitInt(1024);
static std::string bstr(B v)
{
    bool n = v < 0;
    if (n) v = -v;
    if (v == 0) return "0";
    std::string s;
    while (v > 0) { s.push_back('0' + (int)(v % 10)); v /= 10; }
    std::reverse(s.begin(), s.end());
    return n ? "(- " + s + ")" : s;
}
static B pw2(unsigned n) { return (B)1 << n; }
static B bmax() { return pw2(900); }

namespace {
struct IntTr {
    struct L { // linear form over integer variables, with bounds
        std::map<int, B> t;
        B c = 0;
        B lo = 0, hi = 0;
    };
    struct V {
        std::string name;
        B lo, hi;
        bool isFloor = false; // value = floor(num / den)
        L num;
        B den = 1;
    };
    std::vector<V> vars;
    std::vector<std::string> side; // side constraints
    struct In { u32 id; int v; };
    std::vector<In> inputs;
    struct Bnd { B ulo, uhi, slo, shi; };
    std::unordered_map<u32, Bnd> vb; // bounds of the inputs found among the conjuncts
    std::unordered_map<E, L> memo, smemo, mmemo;
    std::unordered_map<E, std::string> bmemo;
    bool fail = false;
    std::string failWhy;

    int nv(B lo, B hi)
    {
        vars.push_back({"i" + std::to_string(vars.size()), lo, hi, false, {}, 1});
        return vars.size() - 1;
    }
    std::string s(const L &l)
    {
        std::string r = "(+ " + bstr(l.c);
        for (auto &[v, co] : l.t) r += " (* " + bstr(co) + " " + vars[v].name + ")";
        r += " 0)";
        return r;
    }
    std::string key(const L &l)
    {
        std::string r = bstr(l.c);
        for (auto &[v, co] : l.t) r += "," + std::to_string(v) + ":" + bstr(co);
        return r;
    }
    static B fdiv(B a, B b) { B q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) q -= 1; return q; }
    static B cdiv(B a, B b) { return -fdiv(-a, b); }
    static B gcd(B a, B b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { B t = a % b; a = b; b = t; } return a; }
    L cst(B c) { L l; l.c = l.lo = l.hi = c; return l; }
    // interval of a linear form, seeing through the definitions of floors
    void interval(const std::map<int, B> &t, B c, B &lo, B &hi, int depth)
    {
        lo = hi = c;
        int at = -1;
        B mx = c < 0 ? -c : c;
        for (auto &[v, co] : t) {
            if (co > 0) { lo += co * vars[v].lo; hi += co * vars[v].hi; }
            else { lo += co * vars[v].hi; hi += co * vars[v].lo; }
            if (vars[v].isFloor) at = v;
            B a = co < 0 ? -co : co;
            if (a > mx) mx = a;
        }
        if (at < 0 || depth > 4 || t.size() < 2 || mx > pw2(300)) return;
        B co = t.at(at), den = vars[at].den;
        if (den > pw2(140)) return;
        std::map<int, B> t2;
        for (auto &[v, k] : t) if (v != at) t2[v] = k * den;
        for (auto &[v, k] : vars[at].num.t) { auto &x = t2[v]; x += co * k; if (x == 0) t2.erase(v); }
        B lo2, hi2;
        interval(t2, c * den + co * vars[at].num.c, lo2, hi2, depth + 1);
        if (co > 0) lo2 -= co * (den - 1); else hi2 += -co * (den - 1);
        lo2 = cdiv(lo2, den);
        hi2 = fdiv(hi2, den);
        if (lo2 > lo) lo = lo2;
        if (hi2 < hi) hi = hi2;
    }
    void bounds(L &l)
    {
        B lo, hi;
        interval(l.t, l.c, lo, hi, 0);
        if (lo > l.lo) l.lo = lo;
        if (hi < l.hi) l.hi = hi;
    }
    L varL(int v) { L l; l.t[v] = 1; l.lo = vars[v].lo; l.hi = vars[v].hi; return l; }
    int nFloors(const L &l) { int n = 0; for (auto &[v, co] : l.t) n += vars[v].isFloor; return n; }
    L raw(const L &a, const L &b, B ca, B cb) // ca*a + cb*b, bounds recomputed
    {
        L r;
        r.c = ca * a.c + cb * b.c;
        if (ca != 0) for (auto &[v, k] : a.t) r.t[v] = ca * k;
        if (cb != 0) for (auto &[v, k] : b.t) { auto &x = r.t[v]; x += cb * k; if (x == 0) r.t.erase(v); }
        r.lo = (ca >= 0 ? ca * a.lo : ca * a.hi) + (cb >= 0 ? cb * b.lo : cb * b.hi);
        r.hi = (ca >= 0 ? ca * a.hi : ca * a.lo) + (cb >= 0 ? cb * b.hi : cb * b.lo);
        bounds(r);
        return r;
    }
    L merge(const L &l)
    {
        // x + floor(n/d) = floor((d*x + n)/d): worth it when it cancels floors
        int n = nFloors(l);
        if (n < 2) return l;
        for (auto it = l.t.rbegin(); it != l.t.rend(); ++it) {
            int v = it->first;
            if (!vars[v].isFloor || it->second != 1) continue;
            L rest = l;
            rest.t.erase(v);
            rest.lo = -bmax(); rest.hi = bmax();
            bounds(rest);
            L num = raw(rest, vars[v].num, vars[v].den, 1);
            if (nFloors(num) < n) {
                L r = floorDiv(num, vars[v].den);
                if (l.lo > r.lo) r.lo = l.lo;
                if (l.hi < r.hi) r.hi = l.hi;
                return r;
            }
        }
        return l;
    }
    L add(const L &a, const L &b, B co) { return merge(raw(a, b, 1, co)); }
    std::map<std::pair<std::string, std::string>, int> divMemo;
    // floor(l / d), d > 0
    L floorDiv(L l, B d)
    {
        if (d == 1) return l;
        B qlo = fdiv(l.lo, d), qhi = fdiv(l.hi, d);
        if (qlo == qhi) return cst(qlo);
        // take out the multiples of d
        {
            L A, Bq;
            for (auto &[v, co] : l.t) {
                B q = co / d, r = co - q * d;
                if (q != 0) A.t[v] = q;
                if (r != 0) Bq.t[v] = r;
            }
            A.c = fdiv(l.c, d);
            Bq.c = l.c - A.c * d;
            if (!A.t.empty() || A.c != 0) {
                A.lo = Bq.lo = -bmax(); A.hi = Bq.hi = bmax();
                bounds(A); bounds(Bq);
                L r = floorDiv(Bq, d);
                r = raw(A, r, 1, 1);
                if (qlo > r.lo) r.lo = qlo;
                if (qhi < r.hi) r.hi = qhi;
                return r;
            }
        }
        // common factors
        B g = 0;
        for (auto &[v, co] : l.t) g = gcd(g, co);
        B g2 = gcd(g, d);
        if (g2 > 1) {
            L x;
            for (auto &[v, co] : l.t) x.t[v] = co / g2;
            x.c = fdiv(l.c, g2);
            x.lo = fdiv(l.lo, g2); x.hi = fdiv(l.hi, g2);
            bounds(x);
            return floorDiv(x, d / g2);
        }
        // multiplication by a reciprocal: floor(m*x / d) = floor(x / D) if m*D - d = e >= 0 and x*e < d
        B g3 = gcd(g, l.c);
        if (g3 > 1 && l.lo >= 0) {
            B D = cdiv(d, g3), e = g3 * D - d;
            if (D > 1 && (l.hi / g3) * e < d) {
                L x;
                for (auto &[v, co] : l.t) x.t[v] = co / g3;
                x.c = l.c / g3;
                x.lo = cdiv(l.lo, g3); x.hi = fdiv(l.hi, g3);
                return floorDiv(x, D);
            }
        }
        // nested floors
        for (auto it = l.t.rbegin(); it != l.t.rend(); ++it) {
            int v = it->first;
            if (!vars[v].isFloor || it->second != 1 || vars[v].den * d > pw2(256)) continue;
            L rest = l;
            rest.t.erase(v);
            rest.lo = -bmax(); rest.hi = bmax();
            bounds(rest);
            L num = raw(rest, vars[v].num, vars[v].den, 1);
            if (nFloors(num) < nFloors(l)) {
                L r = floorDiv(num, vars[v].den * d);
                if (qlo > r.lo) r.lo = qlo;
                if (qhi < r.hi) r.hi = qhi;
                return r;
            }
        }
        auto k = std::make_pair(key(l), bstr(d));
        auto it = divMemo.find(k);
        if (it != divMemo.end()) return varL(it->second);
        int q = nv(qlo, qhi);
        divMemo[k] = q;
        vars[q].isFloor = true;
        vars[q].num = l;
        vars[q].den = d;
        // d*q <= l <= d*q + d-1
        side.push_back("(<= (* " + bstr(d) + " " + vars[q].name + ") " + s(l) + ")");
        side.push_back("(<= " + s(l) + " (+ (* " + bstr(d) + " " + vars[q].name + ") " + bstr(d - 1) + "))");
        return varL(q);
    }
    L norm(const L &l, unsigned w) // reduce into [0,2^w)
    {
        if (l.lo >= 0 && l.hi < pw2(w)) return l;
        L q = floorDiv(l, pw2(w));
        L r = raw(l, q, 1, -pw2(w));
        if (r.lo < 0) r.lo = 0;
        if (r.hi >= pw2(w)) r.hi = pw2(w) - 1;
        return merge(r);
    }
    L normS(const L &l, unsigned w) // reduce into [-2^(w-1), 2^(w-1))
    {
        if (l.lo >= -pw2(w - 1) && l.hi < pw2(w - 1)) return l;
        L q = floorDiv(raw(l, cst(pw2(w - 1)), 1, 1), pw2(w));
        L r = raw(l, q, 1, -pw2(w));
        if (r.lo < -pw2(w - 1)) r.lo = -pw2(w - 1);
        if (r.hi >= pw2(w - 1)) r.hi = pw2(w - 1) - 1;
        return merge(r);
    }
    L u(E e) // unsigned value
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        L r = norm(m(e), e->w);
        return memo[e] = r;
    }
    L sgn(E e) // signed value
    {
        auto it = smemo.find(e);
        if (it != smemo.end()) return it->second;
        L r = normS(m(e), e->w);
        return smemo[e] = r;
    }
    L m(E e) // some integer congruent to the value modulo 2^w
    {
        auto it = mmemo.find(e);
        if (it != mmemo.end()) return it->second;
        L r;
        if (fail) return cst(0);
        if (e->w == 1) return mmemo[e] = boolL(e);
        switch (e->op) {
            case O_CONST: r = cst(sxB(e->c, e->w)); break;
            case O_VAR: {
                B ulo = 0, uhi = pw2(e->w) - 1, slo = -pw2(e->w - 1), shi = pw2(e->w - 1) - 1;
                auto f = vb.find(e->aux);
                if (f != vb.end()) { ulo = f->second.ulo; uhi = f->second.uhi; slo = f->second.slo; shi = f->second.shi; }
                int v = (shi - slo < uhi - ulo) ? nv(slo, shi) : nv(ulo, uhi);
                if (vars[v].lo > vars[v].hi) { vars[v].hi = vars[v].lo; side.push_back("false"); contradiction = true; }
                inputs.push_back({e->aux, v});
                r = varL(v);
                break;
            }
            case O_LIN: {
                // choose signed representatives of the coefficients
                r = cst(sxB(e->c, e->w));
                for (size_t i = 0; i < e->k.size(); ++i) r = add(r, m(e->k[i]), sxB(e->co[i], e->w));
                break;
            }
            case O_ZEXT: r = u(e->k[0]); break;
            case O_SEXT: r = sgn(e->k[0]); break;
            case O_EXTRACT: r = e->aux ? floorDiv(u(e->k[0]), pw2(e->aux)) : m(e->k[0]); break;
            case O_CONCAT: r = add(u(e->k[1]), u(e->k[0]), pw2(e->k[1]->w)); break;
            case O_LSHR: if (e->k[1]->op != O_CONST || e->k[1]->c >= e->w) return bad("lshr"); r = floorDiv(u(e->k[0]), pw2((unsigned)e->k[1]->c)); break;
            case O_ASHR: if (e->k[1]->op != O_CONST || e->k[1]->c >= e->w) return bad("ashr"); r = floorDiv(sgn(e->k[0]), pw2((unsigned)e->k[1]->c)); break;
            case O_UDIV:
                if (e->k[1]->op != O_CONST || e->k[1]->c == 0) return bad("udiv");
                r = floorDiv(u(e->k[0]), (B)e->k[1]->c);
                break;
            case O_UREM: {
                if (e->k[1]->op != O_CONST || e->k[1]->c == 0) return bad("urem");
                L a = u(e->k[0]);
                B d = (B)e->k[1]->c;
                r = raw(a, floorDiv(a, d), 1, -d);
                if (r.lo < 0) r.lo = 0;
                if (r.hi >= d) r.hi = d - 1;
                r = merge(r);
                break;
            }
            case O_SDIV: {
                if (e->k[1]->op != O_CONST || e->k[1]->c == 0) return bad("sdiv");
                B d = sxB(e->k[1]->c, e->w);
                L a = sgn(e->k[0]);
                if (a.lo >= 0 && d > 0) { r = floorDiv(a, d); break; }
                // trunc division
                B ad = d < 0 ? -d : d;
                int q = nv(-pw2(e->w - 1), pw2(e->w - 1));
                std::string A = s(a), Q = vars[q].name, D = bstr(d), AD1 = bstr(ad - 1);
                side.push_back("(ite (>= " + A + " 0) (and (<= (* " + D + " " + Q + ") " + A + ") (<= " + A + " (+ (* " + D + " " + Q + ") " + AD1
                               + "))) (and (>= (* " + D + " " + Q + ") " + A + ") (>= " + A + " (- (* " + D + " " + Q + ") " + AD1 + "))))");
                r = varL(q);
                break;
            }
            case O_SREM: {
                if (e->k[1]->op != O_CONST || e->k[1]->c == 0) return bad("srem");
                E q = mkSDiv(e->k[0], e->k[1]);
                r = m(mkSub(e->k[0], mkMul(q, e->k[1])));
                break;
            }
            case O_ITE: {
                L a = u(e->k[1]), b = u(e->k[2]);
                std::string c = bo(e->k[0]);
                int v = nv(a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi);
                side.push_back("(ite " + c + " (= " + vars[v].name + " " + s(a) + ") (= " + vars[v].name + " " + s(b) + "))");
                r = varL(v);
                break;
            }
            default: return bad("op" + std::to_string(e->op));
        }
        return mmemo[e] = r;
    }
    bool contradiction = false;
    static B sxB(u128 v, unsigned w)
    {
        v &= maskw(w);
        if ((v >> (w - 1)) & 1) return (B)v - pw2(w);
        return (B)v;
    }
    L bad(const std::string &why) { fail = true; failWhy = why; return cst(0); }
    L boolL(E e)
    {
        std::string c = bo(e);
        if (c == "true") return cst(1);
        if (c == "false") return cst(0);
        int v = nv(0, 1);
        side.push_back("(= " + c + " (= " + vars[v].name + " 1))");
        return varL(v);
    }
    static std::string neg(const std::string &x) { return x == "true" ? "false" : x == "false" ? "true" : "(not " + x + ")"; }
    std::string bo(E e)
    {
        auto it = bmemo.find(e);
        if (it != bmemo.end()) return it->second;
        std::string r;
        switch (e->op) {
            case O_CONST: r = e->c ? "true" : "false"; break;
            case O_VAR: {
                int v = nv(0, 1);
                inputs.push_back({e->aux, v});
                r = "(= " + vars[v].name + " 1)";
                break;
            }
            case O_AND: {
                std::string a = bo(e->k[0]), b = bo(e->k[1]);
                r = a == "false" || b == "false" ? "false" : a == "true" ? b : b == "true" ? a : "(and " + a + " " + b + ")";
                break;
            }
            case O_OR: {
                std::string a = bo(e->k[0]), b = bo(e->k[1]);
                r = a == "true" || b == "true" ? "true" : a == "false" ? b : b == "false" ? a : "(or " + a + " " + b + ")";
                break;
            }
            case O_XOR:
                if (e->k[1]->op == O_CONST) r = e->k[1]->c ? neg(bo(e->k[0])) : bo(e->k[0]);
                else r = "(xor " + bo(e->k[0]) + " " + bo(e->k[1]) + ")";
                break;
            case O_ITE: r = "(ite " + bo(e->k[0]) + " " + bo(e->k[1]) + " " + bo(e->k[2]) + ")"; break;
            case O_EQ: {
                if (e->k[0]->w == 1) { r = "(= " + bo(e->k[0]) + " " + bo(e->k[1]) + ")"; break; }
                // prefer a comparison of representatives whose difference cannot reach 2^w
                L a = m(e->k[0]), b = m(e->k[1]);
                L d = add(a, b, -1);
                if (!(d.lo > -pw2(e->k[0]->w) && d.hi < pw2(e->k[0]->w))) d = add(u(e->k[0]), u(e->k[1]), -1);
                if (d.lo > 0 || d.hi < 0) r = "false";
                else if (d.t.empty() && d.c == 0) r = "true";
                else if (d.t.empty()) r = "false";
                else {
                    // gcd test
                    B g = 0;
                    for (auto &[v, co] : d.t) g = gcd(g, co);
                    if (d.c % g != 0) r = "false";
                    else r = "(= " + s(d) + " 0)";
                }
                break;
            }
            case O_ULT: r = less(u(e->k[0]), u(e->k[1])); break;
            case O_SLT: r = less(sgn(e->k[0]), sgn(e->k[1])); break;
            case O_EXTRACT: {
                L a = u(e->k[0]);
                L hi = e->aux ? floorDiv(a, pw2(e->aux)) : a;
                L b = norm(hi, 1);
                r = b.lo == 1 ? "true" : b.hi == 0 ? "false" : "(= " + s(b) + " 1)";
                break;
            }
            case O_UMULO: case O_SMULO: {
                // multiplication of anything by a constant
                E x = e->k[0], y = e->k[1];
                if (x->op == O_CONST) std::swap(x, y);
                if (y->op != O_CONST) { bad("mulo"); r = "false"; break; }
                if (e->op == O_UMULO) {
                    L p = raw(u(x), cst(0), (B)y->c, 0);
                    r = neg(less(p, cst(pw2(x->w))));
                } else {
                    L p = raw(sgn(x), cst(0), sxB(y->c, y->w), 0);
                    std::string a = less(p, cst(-pw2(x->w - 1))), b = neg(less(p, cst(pw2(x->w - 1))));
                    r = a == "true" || b == "true" ? "true" : a == "false" ? b : b == "false" ? a : "(or " + a + " " + b + ")";
                }
                break;
            }
            default: bad("bop" + std::to_string(e->op)); r = "false";
        }
        return bmemo[e] = r;
    }
    std::string less(const L &a, const L &b)
    {
        L d = add(a, b, -1);
        if (d.hi < 0) return "true";
        if (d.lo >= 0) return "false";
        return "(< " + s(d) + " 0)";
    }
    // bounds of single inputs among the conjuncts
    void scan(E c, bool pos)
    {
        if (c->op == O_XOR && c->k[1]->op == O_CONST) { scan(c->k[0], pos ^ (c->k[1]->c != 0)); return; }
        if (c->op == O_AND && pos) { scan(c->k[0], true); scan(c->k[1], true); return; }
        if (c->op == O_OR && !pos) { scan(c->k[0], false); scan(c->k[1], false); return; }
        if (c->op != O_ULT && c->op != O_SLT && !(c->op == O_EQ && pos)) return;
        E a = c->k[0], b = c->k[1];
        if (a->w == 1) return;
        auto get = [&](E v) -> Bnd & {
            auto it = vb.find(v->aux);
            if (it == vb.end()) it = vb.emplace(v->aux, Bnd{0, pw2(v->w) - 1, -pw2(v->w - 1), pw2(v->w - 1) - 1}).first;
            return it->second;
        };
        auto strip = [](E x) { return x; };
        a = strip(a); b = strip(b);
        if (a->op == O_VAR && b->op == O_CONST) {
            auto &x = get(a);
            if (c->op == O_EQ) {
                x.ulo = x.uhi = (B)b->c; x.slo = x.shi = sxB(b->c, b->w);
            } else if (c->op == O_ULT) {
                B k = (B)b->c;
                if (pos) { if (k - 1 < x.uhi) x.uhi = k - 1; } else if (k > x.ulo) x.ulo = k;
            } else {
                B k = sxB(b->c, b->w);
                if (pos) { if (k - 1 < x.shi) x.shi = k - 1; } else if (k > x.slo) x.slo = k;
            }
        } else if (a->op == O_CONST && b->op == O_VAR) {
            auto &x = get(b);
            if (c->op == O_EQ) {
                x.ulo = x.uhi = (B)a->c; x.slo = x.shi = sxB(a->c, a->w);
            } else if (c->op == O_ULT) {
                B k = (B)a->c;
                if (pos) { if (k + 1 > x.ulo) x.ulo = k + 1; } else if (k < x.uhi) x.uhi = k;
            } else {
                B k = sxB(a->c, a->w);
                if (pos) { if (k + 1 > x.slo) x.slo = k + 1; } else if (k < x.shi) x.shi = k;
            }
        } else if (c->op == O_ULT && b->op == O_CONST && a->op == O_LIN && a->k.size() == 1 && a->k[0]->op == O_VAR && a->co[0] == 1) {
            // x + c <u k: the usual form of a signed range test
            unsigned w = a->w;
            B off = sxB(a->c, w), k = (B)b->c;
            B lo = pos ? -off : k - off, hi = pos ? k - 1 - off : pw2(w) - 1 - off;
            auto &x = get(a->k[0]);
            for (int sft = -1; sft <= 1; ++sft) {
                B l2 = lo + sft * pw2(w), h2 = hi + sft * pw2(w);
                if (l2 >= 0 && h2 < pw2(w)) { if (l2 > x.ulo) x.ulo = l2; if (h2 < x.uhi) x.uhi = h2; }
                if (l2 >= -pw2(w - 1) && h2 < pw2(w - 1)) { if (l2 > x.slo) x.slo = l2; if (h2 < x.shi) x.shi = h2; }
            }
        }
    }
    void tidy()
    {
        for (auto &[id, x] : vb) {
            unsigned w = gVars[id].w;
            if (x.slo >= 0) { if (x.slo > x.ulo) x.ulo = x.slo; if (x.shi < x.uhi) x.uhi = x.shi; }
            if (x.uhi < pw2(w - 1)) { if (x.uhi < x.shi) x.shi = x.uhi; if (x.ulo > x.slo) x.slo = x.ulo; }
        }
    }
};
} // namespace

static std::string runSolver(const std::vector<std::string> &argv, const std::string &input, double timeout)
{
    int in[2], out[2];
    if (pipe(in) || pipe(out)) return "";
    pid_t p = fork();
    if (p == 0) {
        dup2(in[0], 0); dup2(out[1], 1);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        close(in[0]); close(in[1]); close(out[0]); close(out[1]);
        std::vector<char *> a;
        for (auto &s : argv) a.push_back((char *)s.c_str());
        a.push_back(nullptr);
        execvp(a[0], a.data());
        _exit(127);
    }
    close(in[0]); close(out[1]);
    signal(SIGPIPE, SIG_IGN);
    size_t off = 0;
    while (off < input.size()) {
        ssize_t n = write(in[1], input.data() + off, input.size() - off);
        if (n <= 0) break;
        off += n;
    }
    close(in[1]);
    std::string r;
    double t0 = nowSec();
    fcntl(out[0], F_SETFL, O_NONBLOCK);
    char buf[65536];
    while (true) {
        ssize_t n = read(out[0], buf, sizeof buf);
        if (n > 0) { r.append(buf, n); continue; }
        if (n == 0) break;
        if (nowSec() - t0 > timeout) { kill(p, SIGKILL); r = "timeout"; break; }
        usleep(500);
    }
    close(out[0]);
    int stt;
    waitpid(p, &stt, 0);
    return r;
}

static bool parseVal(const std::string &out, const std::string &name, B &val)
{
    // ((i3 123)) or ((i3 (- 123)))
    size_t p = out.find("((" + name + " ");
    if (p == std::string::npos) return false;
    p += 3 + name.size();
    bool neg = false;
    if (out[p] == '(') { neg = true; p += 3; }
    B v = 0;
    bool any = false;
    while (p < out.size() && isdigit(out[p])) { v = v * 10 + (out[p] - '0'); ++p; any = true; }
    if (!any) return false;
    val = neg ? -v : v;
    return true;
}

R Solver::checkInt(const std::vector<E> &cs, Model *m, double timeout)
{
    IntTr t;
    std::vector<std::string> as;
    for (E c : cs) t.scan(c, true);
    t.tidy();
    for (auto &[id, x] : t.vb)
        if (x.ulo > x.uhi || x.slo > x.shi) { ++st->intq; return R::UNSAT; }
    for (E c : cs) as.push_back(t.bo(c));
    if (!t.fail)
        for (auto &x : as) if (x == "false") { ++st->intq; return R::UNSAT; }
    if (timeout <= 0) return R::UNK; // simplification only
    if (t.fail) { if (getenv("SYMX_DEBUG")) fprintf(stderr, "int encoding unsupported: %s\n", t.failWhy.c_str()); return R::UNK; }
    ++st->intq;
    std::ostringstream os;
    os << "(set-logic QF_LIA)\n(set-option :produce-models true)\n";
    for (auto &v : t.vars) os << "(declare-const " << v.name << " Int)\n(assert (and (<= " << bstr(v.lo) << " " << v.name << ") (<= " << v.name << " " << bstr(v.hi) << ")))\n";
    for (auto &s : t.side) os << "(assert " << s << ")\n";
    for (auto &s : as) os << "(assert " << s << ")\n";
    os << "(check-sat)\n";
    std::string body = os.str();
    std::string gv;
    for (auto &[vid, v] : t.inputs) gv += "(get-value (" + t.vars[v].name + "))\n";
    if (const char *d = getenv("SYMX_DUMP")) {
        static int n = 0;
        std::string f = std::string(d) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2";
        FILE *fp = fopen(f.c_str(), "w");
        if (fp) { fputs((body + gv).c_str(), fp); fclose(fp); }
    }
    auto tryOne = [&](const std::vector<std::string> &argv, double to) {
        std::string out = runSolver(argv, body + gv, to);
        if (out.compare(0, 5, "unsat") == 0) return R::UNSAT;
        if (out.compare(0, 3, "sat") == 0) {
            if (m)
                for (auto &[vid, v] : t.inputs) {
                    B val;
                    if (!parseVal(out, t.vars[v].name, val)) return R::UNK;
                    m->set(vid, (u128)(val < 0 ? val + pw2(gVars[vid].w) : val));
                }
            // validate the model against the bit-vector semantics
            if (m) for (E c : cs) if (!evalExpr(c, *m)) { fprintf(stderr, "integer model does not satisfy the bit-vector query\n"); return R::UNK; }
            return R::SAT;
        }
        return R::UNK;
    };
    R r = tryOne({"z3-new", "-in", "-T:" + std::to_string((int)std::max(1.0, timeout / 3))}, timeout / 3 + 1);
    if (r == R::UNK) r = tryOne({"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + std::to_string((int)(timeout * 1000))}, timeout + 1);
    return r;
}

R Solver::checkExt(const std::vector<E> &cs, Model *m)
{
    // bit-vector query with external solvers
    z3::solver s(ctx, "QF_BV");
    std::vector<u32> vs;
    for (E c : cs) { s.add(tr(c)); for (u32 v : c->vars) vs.push_back(v); }
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    std::string body = "(set-logic QF_BV)\n(set-option :produce-models true)\n" + s.to_smt2();
    // strip the check-sat emitted by to_smt2 (keep a single one) and append get-value
    std::string gv;
    for (u32 v : vs) gv += "(get-value (v" + std::to_string(v) + "))\n";
    size_t p = body.rfind("(check-sat)");
    if (p == std::string::npos) body += "(check-sat)\n";
    auto parse = [&](const std::string &out) {
        if (out.compare(0, 5, "unsat") == 0) return R::UNSAT;
        if (out.compare(0, 3, "sat") == 0) {
            if (!m) return R::SAT;
            for (u32 v : vs) {
                std::string key = "((v" + std::to_string(v) + " ";
                size_t q = out.find(key);
                if (q == std::string::npos) { if (out.find("error") != std::string::npos) return R::UNK; continue; }
                q += key.size();
                u128 val = 0;
                if (out.compare(q, 2, "#x") == 0) for (q += 2; isxdigit(out[q]); ++q) val = val * 16 + (isdigit(out[q]) ? out[q] - '0' : tolower(out[q]) - 'a' + 10);
                else if (out.compare(q, 2, "#b") == 0) for (q += 2; out[q] == '0' || out[q] == '1'; ++q) val = val * 2 + (out[q] - '0');
                else if (out.compare(q, 4, "true") == 0) val = 1;
                m->set(v, val);
            }
            for (E c : cs) if (!evalExpr(c, *m)) return R::UNK;
            return R::SAT;
        }
        return R::UNK;
    };
    std::string in = body + gv;
    R r = parse(runSolver({"z3-new", "-in", "-T:" + std::to_string((int)extTimeout)}, in, extTimeout + 1));
    if (r == R::UNK) r = parse(runSolver({"cvc5", "--lang=smt2", "--produce-models", "--tlimit=" + std::to_string((int)(extTimeout * 1000))}, in, extTimeout + 1));
    return r;
}

R Solver::check(std::vector<E> cs, Model *m)
{
    std::vector<E> q;
    for (E c : cs) {
        if (c->op == O_CONST) { if (!c->c) return R::UNSAT; continue; }
        q.push_back(c);
    }
    std::sort(q.begin(), q.end(), [](E a, E b) { return a->id < b->id; });
    q.erase(std::unique(q.begin(), q.end()), q.end());
    if (q.empty()) return R::SAT;
    std::vector<u32> key;
    size_t h = 1469598103934665603ull;
    for (E c : q) { key.push_back(c->id); h = (h ^ c->id) * 1099511628211ull; }
    auto it = cache.find(h);
    if (it != cache.end() && it->second.first == key && it->second.second == R::UNSAT) { ++st->cacheHits; return R::UNSAT; }
    double t0 = nowSec();
    ++st->queries;
    R r = R::UNK;
    const double extFull = extTimeout;
    auto left = [&]() { return deadline > 0 ? deadline - nowSec() : 1e9; };
    auto cap = [&]() { extTimeout = std::min(extFull, std::max(left(), 0.0)); return extTimeout; };
    const bool late = left() < 1;
    if (intFirst) {
        r = checkInt(q, m, 0);
        if (r == R::UNK) r = checkBV(q, m, 300000);
        if (r == R::UNK && !late) r = checkInt(q, m, cap());
        if (r == R::UNK && left() > 5) r = checkBV(q, m, rlimit);
    } else {
        r = checkBV(q, m, rlimit / 8);
        if (r == R::UNK && !late) r = checkInt(q, m, cap());
        if (r == R::UNK && left() > 5) r = checkBV(q, m, rlimit);
    }
    if (r == R::UNK && left() > 1) { cap(); r = checkExt(q, m); }
    extTimeout = extFull;
    double dt = nowSec() - t0;
    st->time += dt;
    if (dt > 2 && getenv("SYMX_SLOW")) {
        fprintf(stderr, "[slow query %.1fs -> %d]\n", dt, (int)r);
        for (E c : q) fprintf(stderr, "   %s\n", exprStr(c, 8).c_str());
    }
    if (r == R::SAT) ++st->sat;
    else if (r == R::UNSAT) ++st->unsat;
    else ++st->unk;
    cache[h] = {key, r};
    return r;
}
