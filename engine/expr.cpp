#include "expr.hpp"

std::vector<VarInfo> gVars;
std::vector<E> gVarExprs;
static u32 gNextId = 1;
static std::unordered_map<size_t, std::vector<E>> gTable;
static u64 gEvGen = 0;

std::string u128str(u128 v)
{
    if (!v) return "0";
    std::string s;
    while (v) { s.push_back('0' + (int)(v % 10)); v /= 10; }
    std::reverse(s.begin(), s.end());
    return s;
}

static size_t hcomb(size_t a, size_t b) { return (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; }

static void mergeVars(std::vector<u32> &out, const std::vector<u32> &in)
{
    if (in.empty()) return;
    if (out.empty()) { out = in; return; }
    std::vector<u32> r;
    r.reserve(out.size() + in.size());
    std::set_union(out.begin(), out.end(), in.begin(), in.end(), std::back_inserter(r));
    out.swap(r);
}

static void computeRange(E e)
{
    const u128 M = maskw(e->w);
    e->ulo = 0;
    e->uhi = M;
    auto &k = e->k;
    switch (e->op) {
        case O_CONST: e->ulo = e->uhi = e->c; break;
        case O_ZEXT: e->ulo = k[0]->ulo; e->uhi = k[0]->uhi; break;
        case O_SEXT:
            if (!(k[0]->uhi >> (k[0]->w - 1))) { e->ulo = k[0]->ulo; e->uhi = k[0]->uhi; }
            break;
        case O_ITE: e->ulo = std::min(k[1]->ulo, k[2]->ulo); e->uhi = std::max(k[1]->uhi, k[2]->uhi); break;
        case O_AND: e->uhi = std::min(k[0]->uhi, k[1]->uhi); break;
        case O_OR: e->ulo = std::max(k[0]->ulo, k[1]->ulo); {
            u128 m = std::max(k[0]->uhi, k[1]->uhi);
            unsigned b = 0;
            while (b < 128 && (m >> b)) ++b;
            e->uhi = std::min(M, b ? maskw(b) : (u128)0);
        } break;
        case O_XOR: {
            u128 m = std::max(k[0]->uhi, k[1]->uhi);
            unsigned b = 0;
            while (b < 128 && (m >> b)) ++b;
            e->uhi = std::min(M, b ? maskw(b) : (u128)0);
        } break;
        case O_UREM: if (k[1]->ulo > 0) e->uhi = std::min(k[0]->uhi, k[1]->uhi - 1); break;
        case O_UDIV: if (k[1]->ulo > 0) { e->uhi = k[0]->uhi / k[1]->ulo; e->ulo = k[0]->ulo / k[1]->uhi; } break;
        case O_LSHR: e->uhi = k[0]->uhi; break;
        case O_EXTRACT:
            if (e->aux == 0 && k[0]->uhi <= M) { e->ulo = k[0]->ulo; e->uhi = k[0]->uhi; }
            else if (e->aux) { u128 h = (k[0]->uhi >> e->aux); if (h <= M) { e->uhi = h; e->ulo = k[0]->ulo >> e->aux; } }
            break;
        case O_CONCAT: e->ulo = (k[0]->ulo << k[1]->w); e->uhi = (k[0]->uhi << k[1]->w) | k[1]->uhi;
            // low part lower bound ignored
            e->ulo |= 0; break;
        case O_LIN: {
            // no-wrap sum with small positive coefficients
            bool ok = true; u128 lo = e->c, hi = e->c;
            for (size_t i = 0; i < k.size() && ok; ++i) {
                u128 t;
                if (__builtin_mul_overflow(e->co[i], k[i]->uhi, &t) || __builtin_add_overflow(hi, t, &hi) || hi > M) { ok = false; break; }
                lo += e->co[i] * k[i]->ulo;
            }
            if (ok) { e->ulo = lo; e->uhi = hi; }
            break;
        }
        case O_MUL: {
            bool ok = true; u128 lo = 1, hi = 1;
            for (auto *x : k) {
                if (__builtin_mul_overflow(hi, x->uhi, &hi) || hi > M) { ok = false; break; }
                lo *= x->ulo;
            }
            if (ok) { e->ulo = lo; e->uhi = hi; }
            break;
        }
        default: break;
    }
}

// Equalities proved on the current path: a node on the left is replaced by the one on the right when built again.
static std::unordered_map<E, E> gRewrite;
void setRewrite(E from, E to)
{
    if (from == to || from->op == O_CONST || from->op == O_VAR) return;
    gRewrite[from] = to;
}

static E intern(Op op, unsigned w, std::vector<E> &&k, u128 c = 0, unsigned aux = 0, std::vector<u128> &&co = {})
{
    size_t h = hcomb(op * 131 + w, aux);
    h = hcomb(h, (size_t)c);
    h = hcomb(h, (size_t)(c >> 64));
    for (auto *x : k) h = hcomb(h, x->id);
    for (auto x : co) { h = hcomb(h, (size_t)x); h = hcomb(h, (size_t)(x >> 64)); }
    auto &b = gTable[h];
    for (auto *e : b)
        if (e->op == op && e->w == w && e->aux == aux && e->c == c && e->k == k && e->co == co) {
            if (!gRewrite.empty()) {
                auto it = gRewrite.find(e);
                if (it != gRewrite.end()) return it->second;
            }
            return e;
        }
    E e = new Expr;
    e->op = op; e->w = w; e->id = gNextId++; e->aux = aux; e->c = c; e->k = std::move(k); e->co = std::move(co); e->h = h;
    for (auto *x : e->k) { mergeVars(e->vars, x->vars); e->depth = std::max(e->depth, x->depth + 1); }
    computeRange(e);
    if (e->ulo == e->uhi && op != O_CONST && op != O_VAR) {
        // a constant in disguise
        E r = mkConst(e->ulo, w);
        delete e;
        return r;
    }
    b.push_back(e);
    return e;
}

E mkConst(u128 v, unsigned w) { return intern(O_CONST, w, {}, v & maskw(w)); }

E mkVar(const std::string &name, unsigned w)
{
    u32 vid = gVars.size();
    gVars.push_back({name, w, vid});
    E e = new Expr;
    e->op = O_VAR; e->w = w; e->id = gNextId++; e->aux = vid; e->vars = {vid};
    e->ulo = 0; e->uhi = maskw(w);
    gVarExprs.push_back(e);
    return e;
}

static bool isC(E e) { return e->op == O_CONST; }

// ---- linear canonical form ----
struct Lin { u128 c = 0; std::vector<std::pair<E, u128>> t; };

static void linAdd(Lin &l, E e, u128 co, unsigned w)
{
    if (e->op == O_CONST) { l.c += co * e->c; return; }
    if (e->op == O_LIN) {
        l.c += co * e->c;
        for (size_t i = 0; i < e->k.size(); ++i) l.t.emplace_back(e->k[i], co * e->co[i]);
        return;
    }
    l.t.emplace_back(e, co);
}

static E linBuild(Lin &l, unsigned w)
{
    const u128 M = maskw(w);
    std::sort(l.t.begin(), l.t.end(), [](const auto &a, const auto &b) { return a.first->id < b.first->id; });
    std::vector<E> k;
    std::vector<u128> co;
    for (size_t i = 0; i < l.t.size();) {
        u128 s = 0;
        size_t j = i;
        for (; j < l.t.size() && l.t[j].first == l.t[i].first; ++j) s += l.t[j].second;
        s &= M;
        if (s) { k.push_back(l.t[i].first); co.push_back(s); }
        i = j;
    }
    u128 c = l.c & M;
    if (k.empty()) return mkConst(c, w);
    if (c == 0 && k.size() == 1 && co[0] == 1) return k[0];
    return intern(O_LIN, w, std::move(k), c, 0, std::move(co));
}

E mkAdd(E a, E b)
{
    unsigned w = a->w;
    if (w == 1) return mkXor(a, b);
    if (isC(a) && isC(b)) return mkConst(a->c + b->c, w);
    Lin l; linAdd(l, a, 1, w); linAdd(l, b, 1, w);
    return linBuild(l, w);
}
E mkSub(E a, E b)
{
    unsigned w = a->w;
    if (w == 1) return mkXor(a, b);
    if (isC(a) && isC(b)) return mkConst(a->c - b->c, w);
    if (isC(b) && b->c == 0) return a;
    Lin l; linAdd(l, a, 1, w); linAdd(l, b, ~u128(0), w);
    return linBuild(l, w);
}
E mkNeg(E a) { return mkSub(mkConst(0, a->w), a); }

static E mulAtoms(E a, E b)
{
    std::vector<E> k;
    if (a->op == O_MUL) k = a->k; else k.push_back(a);
    if (b->op == O_MUL) k.insert(k.end(), b->k.begin(), b->k.end()); else k.push_back(b);
    std::sort(k.begin(), k.end(), [](E x, E y) { return x->id < y->id; });
    return intern(O_MUL, a->w, std::move(k));
}

E mkMul(E a, E b)
{
    unsigned w = a->w;
    if (w == 1) return mkAnd(a, b);
    if (isC(a) && isC(b)) return mkConst(a->c * b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        Lin l; linAdd(l, a, b->c, w);
        return linBuild(l, w);
    }
    // distribute small products
    size_t na = a->op == O_LIN ? a->k.size() + (a->c != 0) : 1, nb = b->op == O_LIN ? b->k.size() + (b->c != 0) : 1;
    if ((na > 1 || nb > 1 || a->op == O_LIN || b->op == O_LIN) && na * nb <= 36) {
        std::vector<std::pair<E, u128>> ta, tb;
        auto dec = [](E e, std::vector<std::pair<E, u128>> &t) {
            if (e->op == O_LIN) {
                for (size_t i = 0; i < e->k.size(); ++i) t.emplace_back(e->k[i], e->co[i]);
                if (e->c) t.emplace_back(nullptr, e->c);
            } else t.emplace_back(e, 1);
        };
        dec(a, ta); dec(b, tb);
        Lin l;
        for (auto &x : ta) for (auto &y : tb) {
            u128 co = x.second * y.second;
            if (!x.first && !y.first) l.c += co;
            else if (!x.first) l.t.emplace_back(y.first, co);
            else if (!y.first) l.t.emplace_back(x.first, co);
            else {
                E p = mulAtoms(x.first, y.first);
                linAdd(l, p, co, w);
            }
        }
        return linBuild(l, w);
    }
    return mulAtoms(a, b);
}

E mkUDiv(E a, E b)
{
    if (isC(b) && b->c == 1) return a;
    if (isC(a) && isC(b) && b->c) return mkConst(a->c / b->c, a->w);
    if (isC(b) && b->c && !(b->c & (b->c - 1))) {
        unsigned s = 0; while (!((b->c >> s) & 1)) ++s;
        return mkLShr(a, mkConst(s, a->w));
    }
    if (isC(b) && b->c && a->uhi < b->c) return mkConst(0, a->w);
    if (isC(b) && b->c && a->op == O_ZEXT) {
        if (b->c <= maskw(a->k[0]->w)) return mkZExt(mkUDiv(a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
    }
    if (isC(b) && b->c && isC(a)) return mkConst(a->c / b->c, a->w);
    return intern(O_UDIV, a->w, {a, b});
}
E mkURem(E a, E b)
{
    if (isC(a) && isC(b) && b->c) return mkConst(a->c % b->c, a->w);
    if (isC(b) && b->c == 1) return mkConst(0, a->w);
    if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkAnd(a, mkConst(b->c - 1, a->w));
    if (isC(b) && b->c && a->uhi < b->c) return a;
    if (isC(b) && b->c && a->op == O_ZEXT) {
        if (b->c <= maskw(a->k[0]->w)) return mkZExt(mkURem(a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
    }
    return intern(O_UREM, a->w, {a, b});
}
E mkSDiv(E a, E b)
{
    if (isC(a) && isC(b) && b->c) {
        i128 x = sx(a->c, a->w), y = sx(b->c, b->w);
        if (y == -1) return mkConst((u128)0 - (u128)x, a->w);
        return mkConst((u128)(x / y), a->w);
    }
    if (isC(b) && b->c == 1 && b->w > 1) return a;
    u128 half = u128(1) << (a->w - 1);
    if (a->uhi < half && b->uhi < half) return mkUDiv(a, b);
    return intern(O_SDIV, a->w, {a, b});
}
E mkSRem(E a, E b)
{
    if (isC(a) && isC(b) && b->c) {
        i128 x = sx(a->c, a->w), y = sx(b->c, b->w);
        if (y == -1) return mkConst(0, a->w);
        return mkConst((u128)(x % y), a->w);
    }
    u128 half = u128(1) << (a->w - 1);
    if (a->uhi < half && b->uhi < half) return mkURem(a, b);
    return intern(O_SREM, a->w, {a, b});
}

static bool isNotOf(E a, E b) { return a->op == O_XOR && isC(a->k[1]) && a->k[1]->c == maskw(a->w) && a->k[0] == b; }

E mkAnd(E a, E b)
{
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkConst(a->c & b->c, a->w);
    if (a == b) return a;
    if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == maskw(b->w)) return a;
        // contiguous low mask -> zext(extract)
        if (!(b->c & (b->c + 1))) {
            unsigned n = 0; while ((b->c >> n) & 1) ++n;
            return mkZExt(mkExtract(a, 0, n), a->w);
        }
        if (a->op == O_AND && isC(a->k[1])) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, a->w));
        if (a->op == O_ZEXT) {
            unsigned kw = a->k[0]->w;
            return mkZExt(mkAnd(a->k[0], mkConst(b->c, kw)), a->w);
        }
        // contiguous mask in the middle
        {
            u128 v = b->c; unsigned lo = 0; while (!((v >> lo) & 1)) ++lo;
            u128 s = v >> lo;
            if (!(s & (s + 1))) {
                unsigned n = 0; while ((s >> n) & 1) ++n;
                return mkZExt(mkConcat(mkExtract(a, lo, n), mkConst(0, lo)), a->w);
            }
        }
        return intern(O_AND, a->w, {a, b});
    }
    if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(0, a->w);
    if (a->id > b->id) std::swap(a, b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkAnd(a->k[0], b->k[0]), a->w);
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned m = std::min(a->k[0]->w, b->k[0]->w);
        return mkZExt(mkAnd(mkExtract(a, 0, m), mkExtract(b, 0, m)), a->w);
    }
    if (a->op == O_AND && (a->k[0] == b || a->k[1] == b)) return a;
    if (b->op == O_AND && (b->k[0] == a || b->k[1] == a)) return b;
    return intern(O_AND, a->w, {a, b});
}
E mkOr(E a, E b)
{
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkConst(a->c | b->c, a->w);
    if (a == b) return a;
    if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == maskw(b->w)) return b;
    } else {
        if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(maskw(a->w), a->w);
        if (a->id > b->id) std::swap(a, b);
    }
    // disjoint: (x<<k) | zext(y)  -> concat
    for (int t = 0; t < 2; ++t) {
        E hi = t ? b : a, lo = t ? a : b;
        if (hi->op == O_CONCAT && isC(hi->k[1]) && hi->k[1]->c == 0 && lo->op == O_ZEXT && lo->k[0]->w <= hi->k[1]->w)
            return mkConcat(hi->k[0], mkZExt(lo->k[0], hi->k[1]->w));
        if (hi->op == O_LIN && hi->c == 0 && hi->k.size() == 1 && !(hi->co[0] & (hi->co[0] - 1)) && lo->uhi < hi->co[0])
            return mkAdd(hi, lo);
        if (hi->op == O_ZEXT && hi->k[0]->op == O_CONCAT && isC(hi->k[0]->k[1]) && hi->k[0]->k[1]->c == 0 && lo->op == O_ZEXT
            && lo->k[0]->w <= hi->k[0]->k[1]->w)
            return mkZExt(mkConcat(hi->k[0]->k[0], mkZExt(lo->k[0], hi->k[0]->k[1]->w)), a->w);
    }
    if (a->w == 1) {
        if (a->op == O_OR && (a->k[0] == b || a->k[1] == b)) return a;
        if (b->op == O_OR && (b->k[0] == a || b->k[1] == a)) return b;
    }
    return intern(O_OR, a->w, {a, b});
}
E mkXor(E a, E b)
{
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkConst(a->c ^ b->c, a->w);
    if (a == b) return mkConst(0, a->w);
    if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == O_XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, a->w));
        if (b->c == maskw(a->w) && a->w > 1) return mkSub(mkConst(maskw(a->w), a->w), a); // ~a = -1 - a
        if (a->op == O_ZEXT && b->c <= maskw(a->k[0]->w)) return mkZExt(mkXor(a->k[0], mkConst(b->c, a->k[0]->w)), a->w);
        return intern(O_XOR, a->w, {a, b});
    }
    if (a->id > b->id) std::swap(a, b);
    if (a->op == O_XOR && isC(a->k[1])) return mkXor(mkXor(a->k[0], b), a->k[1]);
    if (b->op == O_XOR && isC(b->k[1])) return mkXor(mkXor(b->k[0], a), b->k[1]);
    return intern(O_XOR, a->w, {a, b});
}
E mkNot(E a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }

E mkShl(E a, E b)
{
    if (isC(b)) {
        if (b->c >= a->w) return mkConst(0, a->w);
        return mkMul(a, mkConst(u128(1) << (unsigned)b->c, a->w));
    }
    return intern(O_SHL, a->w, {a, b});
}
E mkLShr(E a, E b)
{
    if (isC(b)) {
        if (b->c >= a->w) return mkConst(0, a->w);
        if (b->c == 0) return a;
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, a->w - s), a->w);
    }
    return intern(O_LSHR, a->w, {a, b});
}
E mkAShr(E a, E b)
{
    if (isC(b)) {
        unsigned s = b->c >= a->w ? a->w - 1 : (unsigned)b->c;
        if (!s) return a;
        return mkSExt(mkExtract(a, s, a->w - s), a->w);
    }
    return intern(O_ASHR, a->w, {a, b});
}

static u128 invOdd(u128 a)
{
    u128 x = a; // 3 bits
    for (int i = 0; i < 7; ++i) x *= 2 - a * x;
    return x;
}

E mkEq(E a, E b)
{
    if (a == b) return mkConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return mkConst(a->c == b->c, 1);
    if (a->w == 1) {
        if (isC(b)) return b->c ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (a->uhi < b->ulo || b->uhi < a->ulo) return mkConst(0, 1);
    if (isC(b)) {
        switch (a->op) {
            case O_ZEXT:
                if (b->c > maskw(a->k[0]->w)) return mkConst(0, 1);
                return mkEq(a->k[0], mkConst(b->c, a->k[0]->w));
            case O_SEXT: {
                unsigned kw = a->k[0]->w;
                u128 t = b->c & maskw(kw);
                if (((u128)sx(t, kw) & maskw(a->w)) != b->c) return mkConst(0, 1);
                return mkEq(a->k[0], mkConst(t, kw));
            }
            case O_ITE: {
                E x = a->k[1], y = a->k[2];
                if (isC(x) || isC(y)) {
                    E ex = mkEq(x, b), ey = mkEq(y, b);
                    if (isC(ex) || isC(ey)) return mkIte(a->k[0], ex, ey);
                }
                break;
            }
            case O_CONCAT: {
                unsigned lw = a->k[1]->w;
                return mkAnd(mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkEq(a->k[1], mkConst(b->c, lw)));
            }
            case O_XOR: if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->w)); break;
            case O_LIN: {
                if (a->c) { Lin l; linAdd(l, a, 1, a->w); l.c = 0; return mkEq(linBuild(l, a->w), mkConst(b->c - a->c, a->w)); }
                if (a->co.size() == 1 && (a->co[0] & 1)) return mkEq(a->k[0], mkConst(b->c * invOdd(a->co[0]), a->w));
                // x - y == 0
                if (b->c == 0 && a->co.size() == 2 && ((a->co[0] + a->co[1]) & maskw(a->w)) == 0 && (a->co[0] & 1))
                    return mkEq(a->k[0], a->k[1]);
                // normalise sign
                if (a->co[0] > (maskw(a->w) >> 1) + (u128)1) return mkEq(mkNeg(a), mkConst((u128)0 - b->c, a->w));
                break;
            }
            default: break;
        }
        return intern(O_EQ, 1, {a, b});
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        if (m < a->w) return mkEq(mkZExt(a->k[0], m), mkZExt(b->k[0], m));
    }
    if (a->op == O_SEXT && b->op == O_SEXT) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        if (m < a->w) return mkEq(mkSExt(a->k[0], m), mkSExt(b->k[0], m));
    }
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w)
        return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    if (a->op == O_LIN || b->op == O_LIN || a->op == O_MUL || b->op == O_MUL) {
        E d = mkSub(a, b);
        if (isC(d)) return mkConst(d->c == 0, 1);
        if (d->op != O_LIN) return mkEq(d, mkConst(0, d->w));
        return mkEq(d, mkConst(0, d->w));
    }
    if (a->id > b->id) std::swap(a, b);
    return intern(O_EQ, 1, {a, b});
}
E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }

E mkUlt(E a, E b)
{
    if (a == b) return mkConst(0, 1);
    if (a->uhi < b->ulo) return mkConst(1, 1);
    if (a->ulo >= b->uhi) return mkConst(0, 1);
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->w));
    if (isC(a) && a->c == 0) return mkNe(b, a);
    if (a->op == O_ZEXT && b->op == O_ZEXT) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        if (m < a->w) return mkUlt(mkZExt(a->k[0], m), mkZExt(b->k[0], m));
    }
    if (a->op == O_ZEXT && isC(b)) {
        unsigned m = a->k[0]->w;
        if (b->c <= maskw(m)) return mkUlt(a->k[0], mkConst(b->c, m));
    }
    if (b->op == O_ZEXT && isC(a)) {
        unsigned m = b->k[0]->w;
        if (a->c <= maskw(m)) return mkUlt(mkConst(a->c, m), b->k[0]);
    }
    // push the comparison into a conditional when one side of it folds
    if (a->op == O_ITE && ((isC(b) && (isC(a->k[1]) || isC(a->k[2]))) || b == a->k[1] || b == a->k[2]))
        return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (b->op == O_ITE && ((isC(a) && (isC(b->k[1]) || isC(b->k[2]))) || a == b->k[1] || a == b->k[2]))
        return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    return intern(O_ULT, 1, {a, b});
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSlt(E a, E b)
{
    if (a == b) return mkConst(0, 1);
    if (isC(a) && isC(b)) return mkConst(sx(a->c, a->w) < sx(b->c, b->w), 1);
    u128 half = u128(1) << (a->w - 1);
    if (a->uhi < half && b->uhi < half) return mkUlt(a, b);
    if (a->w == 1) return mkAnd(a, mkNot(b));
    if (a->op == O_SEXT && b->op == O_SEXT) {
        unsigned m = std::max(a->k[0]->w, b->k[0]->w);
        if (m < a->w) return mkSlt(mkSExt(a->k[0], m), mkSExt(b->k[0], m));
    }
    if (a->op == O_SEXT && isC(b)) {
        unsigned m = a->k[0]->w;
        i128 v = sx(b->c, b->w), lo = sx(u128(1) << (m - 1), m), hi = (i128)(maskw(m) >> 1);
        if (v > hi) return mkConst(1, 1);
        if (v <= lo) return mkConst(0, 1);
        return mkSlt(a->k[0], mkConst((u128)v, m));
    }
    if (b->op == O_SEXT && isC(a)) {
        unsigned m = b->k[0]->w;
        i128 v = sx(a->c, a->w), lo = sx(u128(1) << (m - 1), m), hi = (i128)(maskw(m) >> 1);
        if (v >= hi) return mkConst(0, 1);
        if (v < lo) return mkConst(1, 1);
        return mkSlt(mkConst((u128)v, m), b->k[0]);
    }
    // sign tests against ranges
    if (a->ulo >= half && b->uhi < half) return mkConst(1, 1);
    if (a->uhi < half && b->ulo >= half) return mkConst(0, 1);
    // push the comparison into a conditional when one side of it folds
    if (a->op == O_ITE && ((isC(b) && (isC(a->k[1]) || isC(a->k[2]))) || b == a->k[1] || b == a->k[2]))
        return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
    if (b->op == O_ITE && ((isC(a) && (isC(b->k[1]) || isC(b->k[2]))) || a == b->k[1] || a == b->k[2]))
        return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
    return intern(O_SLT, 1, {a, b});
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == O_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
        if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkZExt(mkIte(c, a->k[0], b->k[0]), a->w);
    return intern(O_ITE, a->w, {c, a, b});
}

E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    assert(w > a->w);
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
    return intern(O_ZEXT, w, {a});
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    assert(w > a->w);
    if (isC(a)) return mkConst((u128)sx(a->c, a->w), w);
    if (a->op == O_SEXT) return mkSExt(a->k[0], w);
    if (!(a->uhi >> (a->w - 1))) return mkZExt(a, w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
        return mkIte(a->k[0], mkConst((u128)sx(a->k[1]->c, a->w), w), mkConst((u128)sx(a->k[2]->c, a->w), w));
    return intern(O_SEXT, w, {a});
}
E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    assert(lo + w <= a->w);
    if (isC(a)) return mkConst(a->c >> lo, w);
    switch (a->op) {
        case O_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
        case O_ZEXT: {
            unsigned kw = a->k[0]->w;
            if (lo >= kw) return mkConst(0, w);
            if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
            return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
        }
        case O_SEXT: {
            unsigned kw = a->k[0]->w;
            if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
            if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
            return mkSExt(mkExtract(a->k[0], kw - 1, 1), w);
        }
        case O_CONCAT: {
            unsigned lw = a->k[1]->w;
            if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
            if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
            return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
        }
        case O_LIN:
            if (lo == 0) {
                Lin l; l.c = a->c;
                if (w == 1) {
                    E r = mkConst(a->c & 1, 1);
                    for (size_t i = 0; i < a->k.size(); ++i) if (a->co[i] & 1) r = mkXor(r, mkExtract(a->k[i], 0, 1));
                    return r;
                }
                for (size_t i = 0; i < a->k.size(); ++i) linAdd(l, mkExtract(a->k[i], 0, w), a->co[i], w);
                return linBuild(l, w);
            }
            break;
        case O_MUL:
            if (lo == 0) {
                E r = mkExtract(a->k[0], 0, w);
                for (size_t i = 1; i < a->k.size(); ++i) r = mkMul(r, mkExtract(a->k[i], 0, w));
                return r;
            }
            break;
        case O_AND: return mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case O_OR: return mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case O_XOR: return mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
        case O_ITE: return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        default: break;
    }
    if (w < 128 && lo < 128 && a->uhi >> lo == 0) return mkConst(0, w);
    return intern(O_EXTRACT, w, {a}, 0, lo);
}
E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    assert(w <= 128);
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->w)
        return mkExtract(hi->k[0], lo->aux, w);
    // extract pieces distributed by simplification: hi = extract(x,...), lo = x itself trunc
    if (hi->op == O_EXTRACT && hi->k[0] == lo && 0) return nullptr;
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->k[0]->op == O_EXTRACT && hi->k[0] == lo->k[0]->k[0]
        && hi->aux == lo->k[0]->aux + lo->k[0]->w)
        return mkConcat(mkExtract(hi->k[0], lo->k[0]->aux, hi->w + lo->k[0]->w), lo->k[1]);
    if (hi->op == O_ZEXT) return mkZExt(mkConcat(hi->k[0], lo), w);
    if (isC(lo) && lo->c == 0 && w <= 128) {
        // x << k with room: keep as concat
    }
    return intern(O_CONCAT, w, {hi, lo});
}
E mkUMulO(E a, E b)
{
    if (isC(a)) std::swap(a, b);
    if (isC(b) && b->c <= 1) return mkConst(0, 1);
    {
        u128 t;
        if (!__builtin_mul_overflow(a->uhi, b->uhi, &t) && t <= maskw(a->w)) return mkConst(0, 1);
        if (__builtin_mul_overflow(a->ulo, b->ulo, &t) || t > maskw(a->w)) return mkConst(1, 1);
    }
    if (isC(b)) return mkUlt(mkConst(maskw(a->w) / b->c, a->w), a);
    return intern(O_UMULO, 1, {a, b});
}
E mkSMulO(E a, E b)
{
    if (isC(a)) std::swap(a, b);
    unsigned w = a->w;
    if (isC(a)) {
        i128 x = sx(a->c, w), y = sx(b->c, w), t;
        bool o = __builtin_mul_overflow(x, y, &t) || sx((u128)t, w) != t;
        return mkConst(o, 1);
    }
    if (isC(b)) {
        i128 y = sx(b->c, w);
        if (y == 0 || y == 1) return mkConst(0, 1);
        i128 mn = sx(u128(1) << (w - 1), w), mx = (i128)(maskw(w) >> 1);
        if (y == -1) return mkEq(a, mkConst((u128)mn, w));
        // a*y in [mn,mx]
        i128 lo, hi;
        if (y > 0) { lo = mn / y; hi = mx / y; } else { lo = mx / y; hi = mn / y; }
        return mkOr(mkSlt(a, mkConst((u128)lo, w)), mkSlt(mkConst((u128)hi, w), a));
    }
    if (w <= 64) {
        E p = mkMul(mkSExt(a, 2 * w), mkSExt(b, 2 * w));
        return mkNe(p, mkSExt(mkExtract(p, 0, w), 2 * w));
    }
    return intern(O_SMULO, 1, {a, b});
}

static u128 ev(E e, const Model &m)
{
    if (e->op == O_CONST) return e->c;
    if (e->evgen == gEvGen) return e->ev;
    const unsigned w = e->w;
    const u128 M = maskw(w);
    u128 r = 0;
    auto K = [&](int i) { return ev(e->k[i], m); };
    switch (e->op) {
        case O_VAR: r = m.get(e->aux); break;
        case O_LIN: r = e->c; for (size_t i = 0; i < e->k.size(); ++i) r += e->co[i] * K(i); break;
        case O_MUL: r = 1; for (size_t i = 0; i < e->k.size(); ++i) r *= K(i); break;
        case O_UDIV: { u128 a = K(0), b = K(1); r = b ? a / b : M; } break;
        case O_UREM: { u128 a = K(0), b = K(1); r = b ? a % b : a; } break;
        case O_SDIV: { i128 a = sx(K(0), w), b = sx(K(1), w); r = b == 0 ? (a < 0 ? 1 : M) : b == -1 ? (u128)0 - (u128)a : (u128)(a / b); } break;
        case O_SREM: { i128 a = sx(K(0), w), b = sx(K(1), w); r = b == 0 ? (u128)a : b == -1 ? 0 : (u128)(a % b); } break;
        case O_AND: r = K(0) & K(1); break;
        case O_OR: r = K(0) | K(1); break;
        case O_XOR: r = K(0) ^ K(1); break;
        case O_SHL: { u128 s = K(1); r = s >= w ? 0 : K(0) << (unsigned)s; } break;
        case O_LSHR: { u128 s = K(1); r = s >= w ? 0 : K(0) >> (unsigned)s; } break;
        case O_ASHR: { u128 s = K(1); r = (u128)(sx(K(0), w) >> (unsigned)(s >= w ? w - 1 : (unsigned)s)); } break;
        case O_EQ: r = K(0) == K(1); break;
        case O_ULT: r = K(0) < K(1); break;
        case O_SLT: r = sx(K(0), e->k[0]->w) < sx(K(1), e->k[0]->w); break;
        case O_ITE: r = K(0) ? K(1) : K(2); break;
        case O_ZEXT: r = K(0); break;
        case O_SEXT: r = (u128)sx(K(0), e->k[0]->w); break;
        case O_EXTRACT: r = K(0) >> e->aux; break;
        case O_CONCAT: r = (K(0) << e->k[1]->w) | K(1); break;
        case O_UMULO: { u128 t; r = __builtin_mul_overflow(K(0), K(1), &t) || t > maskw(e->k[0]->w); } break;
        case O_SMULO: { unsigned kw = e->k[0]->w; i128 t; r = __builtin_mul_overflow(sx(K(0), kw), sx(K(1), kw), &t) || sx((u128)t, kw) != t; } break;
        default: abort();
    }
    r &= M;
    e->evgen = gEvGen;
    e->ev = r;
    return r;
}
u128 evalExpr(E e, const Model &m)
{
    ++gEvGen;
    return ev(e, m);
}

std::string exprStr(E e, int d)
{
    static const char *nm[] = {"const", "var", "lin", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                               "eq", "ult", "slt", "ite", "zext", "sext", "extract", "concat", "umulo", "smulo"};
    if (e->op == O_CONST) return u128str(e->c) + ":" + std::to_string(e->w);
    if (e->op == O_VAR) return gVars[e->aux].name;
    if (d <= 0) return "...";
    std::string s = std::string("(") + nm[e->op] + std::to_string(e->w);
    if (e->op == O_EXTRACT) s += "@" + std::to_string(e->aux);
    if (e->op == O_LIN) s += " " + u128str(e->c);
    for (size_t i = 0; i < e->k.size(); ++i) {
        s += " ";
        if (e->op == O_LIN) s += u128str(e->co[i]) + "*";
        s += exprStr(e->k[i], d - 1);
    }
    return s + ")";
}
