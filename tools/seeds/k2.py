SEED = dict(id='dpm-parallel-join', property='C04', srcs=['kpack.cpp', 'polynomials/d_packed_monomial.cpp', 'symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp'],
    needs='more than 5000 monomials, so that the parallel reduction is used, and the extreme exponent in the first part of a split',
    breaks='the parallel overflow check of dynamically sized monomials forgets maxima found in one part of the range and accepts a product that wraps',
    edits=[('include/obake/polynomials/d_packed_monomial.hpp',
            '''                                ret.first.emplace_back(::std::min(l1.first[i].first, l2.first[i].first),
                                                       ::std::max(l1.first[i].second, l2.first[i].second));''',
            '''                                auto lim = l2.first[i];
                                if (l1.first[i].first < lim.first) {
                                    lim.first = l1.first[i].first;
                                } else if (l1.first[i].second > lim.second) {
                                    lim.second = l1.first[i].second;
                                }
                                ret.first.push_back(lim);''')],
    demo=r'''
#include <cstdint>
#include <vector>
#include <tbb/global_control.h>
#include <obake/kpack.hpp>
#include <obake/symbols.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
using namespace obake;
int main()
{
    using K = d_packed_monomial<std::int32_t, 2>;
    const symbol_set ss{"x", "y"};
    const auto lim = detail::kpack_get_lims<std::int32_t>(2).second;
    // One monomial has both a low and a high exponent relative to the others, wherever the range is split.
    for (int where : {1, 100, 3000, 9000, 19999}) {
        std::vector<K> a(20000, K{std::int32_t(0), std::int32_t(0)}), b;
        a[where] = K{std::int32_t(-1), std::int32_t(0)};
        a[where / 2 + 1] = K{std::int32_t(lim), std::int32_t(-1)};
        a[where / 2] = K{std::int32_t(-2), std::int32_t(1)};
        b.push_back(K{std::int32_t(1), std::int32_t(0)});
        for (int rep = 0; rep < 20; ++rep)
            if (monomial_range_overflow_check(a, b, ss)) return 1;
    }
}
''')
