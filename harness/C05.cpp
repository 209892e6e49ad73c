// C05: (partial) degrees of monomials are exact sums of exponents, or an error.
#include "mono.hpp"
#include <obake/key/key_degree.hpp>
#include <obake/key/key_p_degree.hpp>

template <typename K>
static void check_deg(const expos<K> &e, const std::vector<bool> &in, bool total, const K &k, const symbol_set &ss,
                      const symbol_idx_set &si)
{
    using T = typename mono<K>::value_type;
    // An overflow is possible, whatever the order of the additions, only if the positive or the negative exponents
    // alone have a sum that is not representable.
    wide sum = 0, pos = 0, neg = 0;
    for (unsigned i = 0; i < e.size(); ++i) {
        if (!in[i]) continue;
        sum += e[i];
        if constexpr (std::is_signed_v<T>) {
            // Static monomials cannot get there: no need to tell the signs apart.
            if constexpr (mono<K>::dyn) {
                const T up = sx::ite<T>(e[i] > T(0), e[i], T(0));
                pos += up;
                neg += static_cast<wide>(e[i]) - up;
            } else {
                pos += mono<K>::lims(static_cast<unsigned>(e.size())).second;
                neg += mono<K>::lims(static_cast<unsigned>(e.size())).first;
            }
        } else {
            pos += e[i];
        }
    }
    const bool over = sx_or(neg < static_cast<wide>(std::numeric_limits<T>::min()),
                            pos > static_cast<wide>(std::numeric_limits<T>::max()));
    T got = 0;
    const auto r = sx_outcome([&]() { got = total ? ::obake::key_degree(k, ss) : ::obake::key_p_degree(k, si, ss); });
    if (r == RETURNED) {
        sx_check(static_cast<wide>(got) == sum, "a returned degree is the exact sum of the exponents");
    } else {
        sx_check(r == OVERFLOW_ERROR, "the only failure of a degree computation is an overflow error");
        sx_check(over, "an overflow error is raised only for a sum that does not fit");
    }
}

template <typename K>
static void degree()
{
    sx_int_mode(true);
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", mono<K>::max_vars + 1u));
    const auto ss = sx_symbols(n);
    const auto e = sx_expos<K>(n);
    check_deg<K>(e, std::vector<bool>(n, true), true, sx_key<K>(e), ss, {});
    sx_reach("degree");
}
FOR_MONOS(degree)

#if defined(SX_THOROUGH)
#define PD_MAX 6
#else
#define PD_MAX 4
#endif
template <typename K>
static void p_degree()
{
    sx_int_mode(true);
    const unsigned maxv = PD_MAX < mono<K>::max_vars ? PD_MAX : mono<K>::max_vars;
    const unsigned n = static_cast<unsigned>(sx_choose("nvars", maxv + 1u));
    const auto ss = sx_symbols(n);
    const unsigned mask = static_cast<unsigned>(sx_choose("mask", 1u << n));
    symbol_idx_set si;
    std::vector<bool> in;
    for (unsigned i = 0; i < n; ++i) {
        in.push_back((mask >> i) & 1u);
        if (in.back()) si.insert(si.end(), i);
    }
    const auto e = sx_expos<K>(n);
    check_deg<K>(e, in, false, sx_key<K>(e), ss, si);
    sx_reach("p_degree");
}
FOR_MONOS(p_degree)

// Sets of indices at the far end of many variables.
template <typename K>
static void p_degree_far()
{
    sx_int_mode(true);
    const unsigned n = mono<K>::max_vars;
    const auto ss = sx_symbols(n);
    const unsigned a = static_cast<unsigned>(sx_choose("first", n)), b = static_cast<unsigned>(sx_choose("second", n));
    if (a > b) sx_assume(false);
    symbol_idx_set si{a, b};
    std::vector<bool> in(n, false);
    in[a] = in[b] = true;
    const auto e = sx_expos<K>(n);
    check_deg<K>(e, in, false, sx_key<K>(e), ss, si);
    sx_reach("p_degree_far");
}
HARNESS(p_degree_far_pm_i32) { p_degree_far<pm_i32>(); }
HARNESS(p_degree_far_dpm_i64_8) { p_degree_far<dpm_i64_8>(); }
HARNESS(p_degree_far_dpm_u32_3) { p_degree_far<dpm_u32_3>(); }
