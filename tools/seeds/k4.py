SEED = dict(id='pm-integrate-shortcut', property='C06', srcs=['kpack.cpp', 'polynomials/packed_monomial.cpp', 'symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp'],
    needs='the exponent of the integration variable at the very end of its range',
    breaks='integrating a packed monomial whose exponent is at the limit yields a different monomial instead of an overflow error',
    edits=[('src/polynomials/packed_monomial.cpp', '''            // NOTE: no need for overflow checking here
            // due to the way we create the kpack deltas
            // and consequently the limits.
            ret_exp = ++tmp;
        }

        kp << tmp;
    }
''', '''            // NOTE: the other exponents do not change, update
            // the code directly instead of packing it again.
            ret_exp = ++tmp;
            ret_value += cur_prod;
            break;
        }

        cur_prod *= ::obake::detail::kpack_get_delta<T>(s_size);
    }
'''), ('src/polynomials/packed_monomial.cpp', '''    kunpacker<T> ku(p.get_value(), s_size);
    kpacker<T> kp(s_size);
    T tmp, ret_exp(0);
    for (auto i = 0u; i < s_size; ++i) {
        ku >> tmp;

        if (i == idx) {
            if constexpr''', '''    kunpacker<T> ku(p.get_value(), s_size);
    T tmp, ret_exp(0), ret_value = p.get_value(), cur_prod(1);
    for (auto i = 0u; i < s_size; ++i) {
        ku >> tmp;

        if (i == idx) {
            if constexpr'''), ('src/polynomials/packed_monomial.cpp', '''    assert(ret_exp != T(0));

    return ::std::make_pair(ret_exp, packed_monomial<T>(kp.get()));''', '''    assert(ret_exp != T(0));

    return ::std::make_pair(ret_exp, packed_monomial<T>(ret_value));''')],
    demo=r'''
#include <cstdint>
#include <stdexcept>
#include <obake/kpack.hpp>
#include <obake/symbols.hpp>
#include <obake/polynomials/packed_monomial.hpp>
using namespace obake;
template <typename T>
int go()
{
    const symbol_set ss{"x", "y", "z"};
    const T lim = detail::kpack_get_lims<T>(3).second;
    for (unsigned i = 0; i < 3; ++i) {
        T e[3] = {1, 2, 3};
        e[i] = lim - 1;
        auto p = monomial_integrate(packed_monomial<T>(e, 3), symbol_idx(i), ss);
        e[i] = lim;
        if (p.first != lim || p.second != packed_monomial<T>(e, 3)) return 1;
        try {
            monomial_integrate(packed_monomial<T>(e, 3), symbol_idx(i), ss);
            return 1;
        } catch (const std::overflow_error &) {
        }
    }
    return 0;
}
int main() { return go<std::int32_t>() || go<std::uint32_t>() || go<std::int64_t>() || go<std::uint64_t>(); }
''')
