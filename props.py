"""Per-property configuration of the checks: which harness, which sources of /repo, bounds and assumptions."""
ALL_SRC = ['kpack.cpp', 'symbols.cpp', 'series.cpp', 'tex_stream_insert.cpp', 'polynomials/packed_monomial.cpp',
           'polynomials/d_packed_monomial.cpp', 'detail/to_string.cpp', 'detail/hc.cpp', 'cf/cf_stream_insert.cpp']

A_FMT = 'The text of exception messages is not modelled (fmt::format yields a fixed string); exception types are.'
A_ALLOC = 'Memory allocation does not fail.'
A_NDEBUG = 'Compiled with NDEBUG: documented preconditions (the code\'s own assert()s) are assumed by the harness, not checked by the code.'
A_MPPP = 'mp++ is not installed: mppp::integer/rational are replaced by a checked 128-bit stand-in (shim/common/mp++).'
A_TBB = 'oneTBB algorithms are replaced by sequential stand-ins that split ranges in several ways.'
A_BOOST = 'boost::unordered_flat_map/set and boost::flyweight are replaced by small models with the same contract (shim/sym/boost).'
BASE = [A_FMT, A_ALLOC, A_NDEBUG]

MONO_SRC = ['kpack.cpp', 'symbols.cpp', 'polynomials/packed_monomial.cpp', 'polynomials/d_packed_monomial.cpp', 'detail/to_string.cpp', 'detail/hc.cpp']

SER_SRC = ['symbols.cpp', 'series.cpp', 'detail/hc.cpp', 'detail/to_string.cpp', 'cf/cf_stream_insert.cpp']
POLY_SRC = ['kpack.cpp', 'symbols.cpp', 'series.cpp', 'tex_stream_insert.cpp', 'polynomials/packed_monomial.cpp', 'polynomials/d_packed_monomial.cpp', 'detail/to_string.cpp', 'detail/hc.cpp', 'cf/cf_stream_insert.cpp']
A_RING = 'Keys: up to three 8-bit exponents; coefficients: integers modulo 2^8 or 2^16 (types of the harness: the code is generic in them).'

PROPS = {
    'C01': dict(
        harness=['C01.cpp'], srcs=['kpack.cpp'],
        bounds='All four packable types, every size (1..10 for 32 bit, 1..21 for 64 bit), all in-range component values; decode of arbitrary codes for sizes 1..2 (quick) / 1..4 (thorough).',
        outside='Decoding of codes that are not images of in-range vectors for larger sizes.',
        assumptions=BASE),
    'C02': dict(
        harness=['C02.cpp'], srcs=['kpack.cpp'],
        bounds='All four packable types, every size (0..10 / 0..21) and every 32-bit size at construction, every position, every value of the word.',
        assumptions=BASE),
    'C03': dict(
        harness=['C03.cpp'], srcs=MONO_SRC,
        bounds='packed_monomial of all 4 types with every number of variables (0..10 / 0..21), d_packed_monomial with 6 type/pack-size combinations up to 2-5 packs; all exponents whose sums are in range.',
        outside='d_packed_monomial with more packs or other pack sizes.', assumptions=BASE),
    'C04': dict(
        harness=['C04.cpp'], srcs=MONO_SRC,
        bounds='Ranges of 0..2 (forward iterators) and 0..3 (parallel reduction, each split mode) monomials, 1-2 variables (3 with tied exponents for degrees), all exponents; parallel path: 5001 monomials of which two are arbitrary.',
        outside='Longer ranges (the loop body is the same for each element).', assumptions=BASE + [A_MPPP, A_TBB]),
    'C05': dict(
        harness=['C05.cpp'], srcs=MONO_SRC,
        bounds='All monomial types and numbers of variables, all exponents, all subsets of up to 5 variables and selected subsets beyond.',
        assumptions=BASE),
    'C06': dict(
        harness=['C06.cpp'], srcs=MONO_SRC,
        bounds='All monomial types and numbers of variables, every variable index, all exponents.', assumptions=BASE),
    'C07': dict(
        harness=['C07.cpp'], srcs=MONO_SRC,
        bounds='Few variables (1..3); all exponents; powers: a set of constants, and arbitrary 8..64 bit powers; evaluation over a free commutative monoid recorded by an observing type.',
        outside='More variables for powers.', assumptions=BASE + [A_MPPP]),
    'C08': dict(
        harness=['C08.cpp'], srcs=MONO_SRC,
        bounds='All monomial types, numbers of variables 0..3 and max-2..max (thorough: all), insertions at two places of 0..2 symbols each, every subset of up to 4 variables, arbitrary codes.',
        outside='Insertions at more than two places; subsets of more than 4 variables other than the patterns explored.', assumptions=BASE),
    'C09': dict(
        harness=['C09.cpp'], srcs=['symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp'], native_srcs=['detail/fw_utils.cpp'],
        bounds='Ordered symbol sets with up to 3 symbols (merge: also prefixes and names of different lengths), every membership pattern.',
        outside='Larger sets.', assumptions=BASE + [A_BOOST]),
    'C10': dict(
        harness=['C10.cpp'], srcs=[],
        bounds='Every pair of integer types up to 128 bits, every value; multiprecision integers and rationals from every 64-bit value.',
        outside='Multiprecision values beyond 128 bits.', assumptions=BASE + [A_MPPP]),
    'C11': dict(
        harness=['C11.cpp'], srcs=['detail/to_string.cpp'],
        bounds='Every value of every integer type up to 32 bits; 64 and 128 bits: quick: numbers with 1, 2, 10, 19, 20, 38, 39 digits, thorough: every value.',
        assumptions=BASE),
    'C12': dict(
        harness=['C12.cpp'], srcs=['detail/atomic_flag_array.cpp', 'detail/fw_utils.cpp'], threads=True,
        bounds='2 and 3 threads, 1-2 critical sections each, every schedule with at most 2 preemptions (thorough: 4) at the synchronisation operations; data races decided by happens-before over the memory orders actually used; flag arrays of up to 10 flags.',
        outside='More threads or preemptions; weak-memory behaviours other than the lack of happens-before.',
        assumptions=BASE + ['Executions are sequentially consistent interleavings checked for data races (which suffices for race-free code).',
                            'std::_Hash_bytes and the rehash policy of std::unordered_map are replaced by equivalents.']),
    'C13': dict(
        harness=['C13.cpp'], srcs=[],
        bounds='Every 128-bit state, 4 consecutive numbers, every integer type.', outside='Longer sequences (each step is the same function of the state).',
        assumptions=[A_NDEBUG]),
    'C14': dict(
        harness=['C14.cpp'], srcs=['symbols.cpp', 'detail/hc.cpp', 'detail/to_string.cpp'],
        bounds='13 operations, types known to the customisation point, to lookup, to both and to none; lvalues and rvalues, constant and not; all integer values; powers of floating-point numbers: 8 integers by 5 numbers.',
        outside='Floating-point values other than those.', assumptions=BASE + [A_MPPP, A_BOOST]),
    'C15': dict(
        harness=['C15.cpp'], srcs=SER_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='1, 2 and 4 segments, 0..3 terms or insertions (3 with one segment; thorough: also with two), arbitrary keys and coefficients of either sign, five ways of extending the symbols.',
        outside='More terms or segments.', assumptions=BASE + [A_RING, A_BOOST]),
    'C16': dict(
        harness=['C16.cpp'], srcs=SER_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Pairs of series with 0..2 terms each (0..1 and 0..2 when segmented in 2 or 4), six relations between their sets of up to 3 symbols, four combinations of value categories, equal and different coefficient types, arbitrary keys and coefficients; nested series with one term.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST]),
    'C17': dict(
        harness=['C17.cpp'], srcs=SER_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Pairs of series with 0..2 terms each, 1, 2 and 4 segments, six relations between their sets of up to 3 symbols, all value categories, equal and different coefficient types, tags, series of series with one term; two representations of one series of up to 3 terms.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST]),
    'C18': dict(
        harness=['C18.cpp'], srcs=SER_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Series with 0..3 terms, 1, 2 and 4 segments, all keys and coefficients, scalars of the coefficient type and integers, all value categories, scalar aliasing a coefficient; coefficients of 32 and 64 bits of built-in types times six scalars.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST, 'The division of the coefficients is a shift (a cheap operation that can give zero).']),
    'C19': dict(
        harness=['C19.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Both algorithms; 0..3 by 0..2 terms, six relations between sets of up to 3 symbols; the multi-threaded algorithm with 1, 2, 4 and 8 segments and three ways of splitting the ranges, 1-2 by 1-2 terms (8 segments: exponents 0..7; thorough: every exponent, 2 by 3 terms); packed and d_packed monomials of four types with 1-2 variables, 1-2 terms by 1.',
        outside='More terms; coefficients other than integers modulo 2^8 and 2^16.', assumptions=BASE + [A_RING, A_BOOST, A_TBB, A_MPPP]),
    'C20': dict(
        harness=['C20.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Both algorithms, total and partial degree, every limit of 16 bits; 1-3 by 0-2 terms, sets of up to 3 symbols; the multi-threaded algorithm with 1, 2 and 4 segments; truncation of polynomials of up to 3 terms.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST, A_TBB, A_MPPP]),
    'C21': dict(
        harness=['C21.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Polynomials of 0..2 terms (evaluation and thorough: 3) in up to 3 symbols, 1 and 2 segments, all exponents and coefficients; the variable is present, absent in the middle, first or last; every set of up to 4 names to substitute or evaluate; coefficients whose derivative is any masked value, of the same and of another type; polynomials of polynomials with one term.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST, A_MPPP, 'The operations on the monomials and coefficients of the harness are sums, masks and shifts, so that the solver can decide them; the generic code treats them as given.']),
    'C22': dict(
        harness=['C22.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Every exponent of 8, 32 and 64 bits up to 3 (negative ones included; any exponent for single coefficients and single terms); polynomials of 1-2 terms (thorough: 3) in up to 2 symbols, 1 and 2 segments; histories of 4 requests to the cache about two polynomials, equal or not, with equal, different and additional symbols, cleared in between or not, failing requests.',
        outside='Larger exponents by repeated multiplication, more terms.', assumptions=BASE + [A_RING, A_BOOST, A_MPPP, 'The hash tables of the cache have a single bucket (std::unordered_map itself is trusted).', 'Powers of coefficients and monomials are sums and masks of the harness.']),
    'C23': dict(
        harness=['C23.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Series of 0..3 terms in up to 3 symbols, 1, 2 and 4 segments, all exponents and coefficients, every set of up to 4 names (of the series or not); degrees of the keys, of the coefficients and of both, near the limits of int; every filter of a two-parameter family; vectors of degrees of up to 3 terms, sequential and in parallel.',
        outside='More terms.', assumptions=BASE + [A_RING, A_BOOST, A_TBB, A_MPPP]),
    'C24': dict(
        harness=['C24.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Power series of 0..2 terms in up to 3 symbols, every limit of 16 bits (setting: 16, 32 and 64 bits), no / total / partial truncation on either side, five relations of the symbol sets, all value categories; powers up to 2 with requests for the same series with two settings; powers -2..3 of a single term; generators for every subset of 3 symbols.',
        outside='More terms; powers of series with negative exponents (truncating early is not exact there).', assumptions=BASE + [A_RING, A_BOOST, A_TBB, A_MPPP, 'The hash tables of the cache of powers have a single bucket.']),
    'C25': dict(
        harness=['C25.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='Symbol sets of up to 3 symbols and any name of 3 characters; every value of packed monomials of 4 types; d_packed monomials of up to 3 packs; series of up to 3 terms, 1, 2 and 4 segments, loaded into series with other symbols, terms and segments; every point of failure; every truncation.',
        outside='More terms; the archives of Boost (the archive of the harness records a sequence of typed items).', assumptions=BASE + [A_RING, A_BOOST, A_MPPP]),
    'C26': dict(
        harness=['C26.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'], defs=['SX_FMT_REAL'],
        bounds='Keys: up to 3 symbols (names of one letter), exponents up to 120 in absolute value (1 symbol), 12 (2 symbols), 3 (3 symbols) and the 3 values next to each limit of the 32-bit types; polynomials of up to 3 terms with coefficients up to 12 in absolute value; polynomials nested 2 and 3 deep with up to 2 terms at each level; 49 to 52 terms (ellipsis); truncation degrees 3 to 25; all 128-bit integers; rationals with numerator and denominator up to 12.',
        outside='Other symbol names and coefficient types; other stream formats and locales.',
        assumptions=BASE + [A_MPPP, A_BOOST, 'The string streams of libstdc++ are executed as they are, without a locale; the decimal digits of built-in integers and the replacement of fields by fmt::format are modelled.']),
    'C27': dict(
        harness=['C27.cpp'], srcs=POLY_SRC, native_srcs=['detail/fw_utils.cpp'],
        bounds='One failure at any operation on a coefficient or key (copies and conversions included) and, in 8 entry points, at any allocation; operands of 1-2 terms, 1 and 2 segments, four relations of the symbol sets, all value categories; the simple and the multi-threaded product; powers up to 3.',
        outside='More terms; failures of the threads themselves; destructors, moves, hashing and comparison do not fail.', assumptions=BASE + [A_RING, A_BOOST, A_TBB, A_MPPP, 'The hash tables of the cache of powers have a single bucket.', 'Creating the first flyweight of the empty symbol set does not fail.']),
}
