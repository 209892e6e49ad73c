SEED = dict(id='kpack-reciprocal', property='C01', srcs=['kpack.cpp'],
    needs='three unsigned 32-bit components, the last one above 1190 and the second at its maximum: only then does the inexact reciprocal round to the wrong quotient',
    breaks='unpacking a valid code of three 32-bit unsigned components yields a wrong second component',
    edits=[('src/kpack.cpp', '{2560763190ull, 1u, 21u}', '{2560763192ull, 1u, 21u}')],
    demo=r'''
#include <cstdint>
#include <obake/kpack.hpp>
using namespace obake;
int main()
{
    for (std::uint32_t a : {0u, 7u, 1620u})
        for (std::uint32_t b : {0u, 1u, 800u, 1620u})
            for (std::uint32_t c = 0; c <= 1620u; ++c) {
                kpacker<std::uint32_t> kp(3);
                kp << a << b << c;
                kunpacker<std::uint32_t> ku(kp.get(), 3);
                std::uint32_t x, y, z;
                ku >> x >> y >> z;
                if (x != a || y != b || z != c) return 1;
            }
}
''')
