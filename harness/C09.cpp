// C09: the algebra of symbol sets: union with insertion maps, intersections as index sets and maps.
#include "sx.hpp"
#include <string>
#include <vector>
#include <obake/symbols.hpp>
using namespace obake;

#if defined(SX_THOROUGH)
#define MAXN 4u
#else
#define MAXN 3u
#endif

// An arbitrary symbol set: strictly increasing names, with arbitrary characters.
static std::vector<std::string> names(unsigned n, unsigned len, const char *nm)
{
    std::vector<std::string> r;
    for (unsigned i = 0; i < n; ++i) {
        std::string s;
        for (unsigned j = 0; j < len; ++j) {
            s.push_back(static_cast<char>(sx::sym<std::uint8_t>(nm)));
        }
        if (i) {
            // Order of unsigned characters, first difference.
            bool lt = false;
            for (unsigned j = len; j-- > 0;) {
                const auto x = static_cast<unsigned char>(r[i - 1][j]), y = static_cast<unsigned char>(s[j]);
                lt = sx_or(x < y, sx_and(x == y, lt));
            }
            sx_assume(lt);
        }
        r.push_back(s);
    }
    return r;
}
static symbol_set mkset(const std::vector<std::string> &v)
{
    symbol_set s;
    symbol_set::sequence_type seq(v.begin(), v.end());
    s.adopt_sequence(boost::container::ordered_unique_range_t{}, std::move(seq));
    return s;
}
// Equality of names without branches.
static bool same(const std::string &a, const std::string &b)
{
    if (a.size() != b.size()) return false;
    bool r = true;
    for (unsigned j = 0; j < a.size(); ++j) {
        r = sx_and(r, a[j] == b[j]);
    }
    return r;
}
static bool among(const std::string &a, const symbol_set &v)
{
    bool r = false;
    for (const auto &x : v) {
        r = sx_or(r, same(a, x));
    }
    return r;
}
static std::vector<std::string> apply(const symbol_set &s, const symbol_idx_map<symbol_set> &m)
{
    std::vector<std::string> r;
    for (unsigned i = 0; i <= s.size(); ++i) {
        for (const auto &p : m) {
            if (p.first == i) r.insert(r.end(), p.second.begin(), p.second.end());
        }
        if (i < s.size()) r.push_back(*s.nth(i));
    }
    return r;
}
static void check_merge(const symbol_set &s1, const symbol_set &s2)
{
    const auto c1 = s1, c2 = s2;
    const auto res = obake::detail::merge_symbol_sets(s1, s2);
    const auto &[u, m1, m2] = res;
    bool ok = true;
    for (const auto &x : s1) ok = sx_and(ok, among(x, u));
    for (const auto &x : s2) ok = sx_and(ok, among(x, u));
    sx_check(ok, "the union contains both sets");
    ok = true;
    for (const auto &x : u) ok = sx_and(ok, sx_or(among(x, s1), among(x, s2)));
    sx_check(ok, "the union contains nothing else");
    ok = true;
    for (unsigned i = 0; i + 1 < u.size(); ++i) ok = ok && *u.nth(i) < *u.nth(i + 1);
    sx_check(ok, "the union is sorted without duplicates");
    for (const auto *p : {&m1, &m2}) {
        const auto &s = p == &m1 ? s1 : s2;
        ok = true;
        bool first = true;
        symbol_idx last = 0;
        for (const auto &e : *p) {
            ok = ok && !e.second.empty() && e.first <= s.size() && (first || e.first > last);
            first = false;
            last = e.first;
        }
        sx_check(ok, "insertion maps have increasing places within the set and no empty entries");
        const auto a = apply(s, *p);
        ok = a.size() == u.size();
        for (unsigned i = 0; ok && i < a.size(); ++i) ok = same(a[i], *u.nth(i));
        sx_check(ok, "inserting the symbols of the map gives the union");
    }
    ok = s1.size() == c1.size() && s2.size() == c2.size();
    sx_check(ok, "the arguments are unchanged");
}
HARNESS(merge_len1)
{
    const unsigned n1 = static_cast<unsigned>(sx_choose("n1", MAXN + 1)), n2 = static_cast<unsigned>(sx_choose("n2", MAXN + 1));
    check_merge(mkset(names(n1, 1, "a")), mkset(names(n2, 1, "b")));
    sx_reach("merge");
}
HARNESS(merge_len2)
{
    const unsigned n1 = static_cast<unsigned>(sx_choose("n1", 3)), n2 = static_cast<unsigned>(sx_choose("n2", 3));
    check_merge(mkset(names(n1, 2, "a")), mkset(names(n2, 2, "b")));
    sx_reach("merge");
}
// Names of different lengths, one a prefix of the other.
HARNESS(merge_prefix)
{
#if defined(SX_THOROUGH)
    constexpr unsigned np = 6;
#else
    constexpr unsigned np = 4;
#endif
    const char *pool[] = {"", "x", "x_1", "xx", "x_", "y"};
    const unsigned m1 = static_cast<unsigned>(sx_choose("m1", 1u << np)), m2 = static_cast<unsigned>(sx_choose("m2", 1u << np));
    symbol_set s1, s2;
    for (unsigned i = 0; i < np; ++i) {
        if (m1 >> i & 1u) s1.insert(pool[i]);
        if (m2 >> i & 1u) s2.insert(pool[i]);
    }
    check_merge(s1, s2);
    sx_reach("merge");
}
HARNESS(intersect)
{
    const unsigned n1 = static_cast<unsigned>(sx_choose("n1", MAXN + 1)), n2 = static_cast<unsigned>(sx_choose("n2", MAXN + 2));
    const auto s = mkset(names(n1, 1, "s")), ref = mkset(names(n2, 1, "r"));
    const auto idx = obake::detail::ss_intersect_idx(s, ref);
    bool ok = true;
    for (unsigned i = 0; i < idx.size(); ++i) {
        ok = ok && *idx.nth(i) < ref.size() && (i == 0 || *idx.nth(i - 1) < *idx.nth(i));
    }
    sx_check(ok, "indices are increasing and within the reference set");
    for (unsigned i = 0; i < ref.size(); ++i) {
        const bool in = idx.find(i) != idx.end();
        sx_check(in == among(*ref.nth(i), s), "exactly the indices of the common symbols");
    }
    symbol_map<int> m;
    std::vector<std::pair<std::string, int>> seq;
    for (unsigned i = 0; i < s.size(); ++i) {
        m.emplace_hint(m.end(), *s.nth(i), static_cast<int>(i) + 100);
    }
    const auto im = obake::detail::sm_intersect_idx(m, ref);
    sx_check(im.size() == idx.size(), "the map has as many entries as there are common symbols");
    ok = im.size() == idx.size();
    for (unsigned i = 0; ok && i < im.size(); ++i) {
        const auto &e = *im.nth(i);
        ok = e.first == *idx.nth(i);
        sx_check(ok, "the map has the indices of the common symbols");
        if (ok) {
            const auto v = static_cast<unsigned>(e.second - 100);
            sx_check(v < s.size() && same(*s.nth(v < s.size() ? v : 0), *ref.nth(e.first)),
                     "each index maps to the value of its symbol");
        }
    }
    sx_reach("intersect");
}
// Equal sets are one shared object, whatever the order of insertion.
HARNESS(flyweight)
{
    const auto v = names(2, 1, "n");
    symbol_set a, b;
    a.insert(v[0]);
    a.insert(v[1]);
    b.insert(v[1]);
    b.insert(v[0]);
    const obake::detail::ss_fw fa(a), fb(b), fc(symbol_set{v[0]});
    sx_check(fa == fb && fa.get() == a, "equal sets are identified");
    sx_check(!(fa == fc), "different sets are told apart");
    sx_check(obake::detail::ss_fw_hasher{}(a) == obake::detail::ss_fw_hasher{}(b), "equal sets have equal hashes");
    sx_reach("flyweight");
}
