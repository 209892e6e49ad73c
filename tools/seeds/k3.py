SEED = dict(id='dpm-merge-buffer', property='C08', srcs=['kpack.cpp', 'polynomials/d_packed_monomial.cpp', 'symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp'],
    needs='a previous extension of a monomial of the same type, in the same thread, that appended symbols at the end',
    breaks='an extension of a dynamically sized monomial starts with exponents left over from the previous extension',
    edits=[('include/obake/polynomials/d_packed_monomial.hpp',
            '''    thread_local ::std::vector<T> tmp_v;
    tmp_v.clear();
''', '''    thread_local ::std::vector<T> tmp_v;
    if (map_it == map_end || map_it->first < s_size) {
        tmp_v.clear();
    }
''')],
    demo=r'''
#include <cstdint>
#include <obake/symbols.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
using namespace obake;
int main()
{
    using K = d_packed_monomial<std::int32_t, 4>;
    const symbol_set ss{"x", "y"};
    const K k{std::int32_t(1), std::int32_t(2)};
    symbol_idx_map<symbol_set> ins;
    ins[2] = symbol_set{"z"};
    const K exp{std::int32_t(1), std::int32_t(2), std::int32_t(0)};
    if (key_merge_symbols(k, ins, ss) != exp) return 1;
    if (key_merge_symbols(k, ins, ss) != exp) return 1;
}
''')
