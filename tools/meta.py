"""Texts of the properties (source of properties.jsonl)."""
PM = 'include/obake/polynomials/packed_monomial.hpp'
PMC = 'src/polynomials/packed_monomial.cpp'
DPM = 'include/obake/polynomials/d_packed_monomial.hpp'
DPMC = 'src/polynomials/d_packed_monomial.cpp'
NOT_BUILT = ('The official build here compiles none of this code (mp++ is missing), and upstream\'s tests sample a few random '
             'values per type and size.')
NA = {}
META = {
    'C01': dict(
        title='Kronecker packing round trip',
        statement='Packing any sequence of integers that lie within the advertised per-component limits and unpacking the result gives back the same sequence, for every supported integer type and every supported number of components. '
                  'The code of a sequence lies within the advertised limits of the codes, distinct sequences have distinct codes, and the sum of two codes is the code of the component-wise sum whenever that sum is within the limits.',
        over=['inputs'], quant='every packable type, every size up to the maximum, every value of every component within the limits',
        why='Round trip on 2^32..2^64 codes and their boundaries; upstream tests pack random vectors only, and the whole module is outside the official build here.',
        files=['include/obake/kpack.hpp', 'src/kpack.cpp'],
        state=[('delta tables', 'span of a component and its precomputed reciprocal', 'include/obake/kpack.hpp detail::kpack_data')],
        mech=[('kpacker::operator<<, get', 'include/obake/kpack.hpp'), ('kunpacker ctor, operator>>, kunpack division by multiplication', 'src/kpack.cpp')],
        observe=['obake::kpacker', 'obake::kunpacker', 'obake::kpack']),
    'C02': dict(
        title='Kronecker packing rejects everything it cannot represent',
        statement='A packer or unpacker for an unsupported number of components, a component outside the limits, a component beyond the declared number, and a code outside the limits of the codes are all reported with the documented exception, and nothing that is within the limits is rejected. '
                  'A rejected component leaves the packer usable as if it had not been offered.',
        over=['inputs', 'histories'], quant='every size, every component value, every code, every number of pushes and pops',
        why='Off-by-one errors at the ends of the ranges are invisible to random values; the module is outside the official build here.',
        files=['include/obake/kpack.hpp', 'src/kpack.cpp'],
        mech=[('range checks in kpacker and kunpacker', 'include/obake/kpack.hpp, src/kpack.cpp')],
        observe=['exception types of obake::kpacker, obake::kunpacker']),
    'C03': dict(
        title='Monomial product, equality and hash',
        statement='The product of two monomials has as exponents the sums of the exponents, including when the result is written over one of the arguments. Two monomials compare equal exactly when all their exponents are equal, and then their hashes are equal; the hash of a product is the sum of the hashes, as the multiplication algorithms require of homomorphic hashes.',
        over=['inputs'], quant='all monomial types, numbers of variables and pairs of exponent vectors whose sum is within the range',
        why=NOT_BUILT, files=[PM, PMC, DPM, DPMC, 'include/obake/polynomials/monomial_mul.hpp', 'include/obake/polynomials/monomial_homomorphic_hash.hpp'],
        mech=[('monomial_mul, operator==, hash', PM + ', ' + DPM)],
        observe=['obake::monomial_mul', 'operator==', 'obake::hash']),
    'C04': dict(
        title='Overflow check of monomial products is exact',
        statement='The check that a multiplication of two ranges of monomials cannot overflow answers yes if and only if, in every component, the sums of the extreme exponents of the two ranges are within the exponent range of the monomial type (and, for dynamically sized monomials, the partial sums needed for degrees fit as well). '
                  'It never answers yes when some product of a monomial of the first range by one of the second would wrap, whichever way the ranges are split among threads.',
        over=['inputs', 'schedules'], quant='ranges of up to 3 monomials each, all exponents, all splits of the parallel reduction',
        why=NOT_BUILT + ' A missed overflow gives a silently wrong product.', files=[PM, DPM, 'include/obake/polynomials/monomial_range_overflow_check.hpp'],
        mech=[('monomial_range_overflow_check', PM + ', ' + DPM)],
        observe=['obake::monomial_range_overflow_check']),
    'C05': dict(
        title='Degree and partial degree of a monomial',
        statement='The degree of a monomial is the sum of its exponents and its partial degree the sum of the selected exponents, as exact integers. An overflow error is raised instead of a wrong number, and only if the positive or the negative exponents alone already have a sum that does not fit the integer type.',
        over=['inputs'], quant='all monomial types, numbers of variables, exponent vectors and subsets of variables',
        why=NOT_BUILT, files=[PM, PMC, DPM, 'include/obake/key/key_degree.hpp', 'include/obake/key/key_p_degree.hpp'],
        mech=[('key_degree, key_p_degree', PMC + ', ' + DPM)],
        observe=['obake::key_degree', 'obake::key_p_degree']),
    'C06': dict(
        title='Derivative and integral of a monomial',
        statement='Differentiating a monomial in a variable yields its exponent and the monomial with that exponent lowered by one; integrating yields the raised exponent and the raised monomial, so that the derivative of the integral is the original. '
                  'Leaving the exponent range is an overflow error, integrating the power -1 is a domain error, and no other exponent changes.',
        over=['inputs'], quant='all monomial types, numbers of variables, variables and exponent vectors',
        why=NOT_BUILT, files=[PMC, DPM, 'include/obake/polynomials/monomial_diff.hpp', 'include/obake/polynomials/monomial_integrate.hpp'],
        mech=[('monomial_diff, monomial_integrate', PMC + ', ' + DPM)],
        observe=['obake::monomial_diff', 'obake::monomial_integrate']),
    'C07': dict(
        title='Power, evaluation and substitution of a monomial',
        statement='Raising a monomial to an integral power multiplies every exponent by it, with an overflow error (never a wrong monomial) when an exponent leaves its range and an error for powers that are not integers. '
                  'Evaluating a monomial multiplies the values of all variables raised to their exponents, and substituting some variables returns that product over the substituted ones together with the monomial in which just these exponents are zero.',
        over=['inputs'], quant='all monomial types, exponent vectors and powers, all subsets of substituted variables',
        why=NOT_BUILT, files=[PMC, PM, DPM, 'include/obake/polynomials/monomial_pow.hpp', 'include/obake/polynomials/monomial_subs.hpp', 'include/obake/key/key_evaluate.hpp'],
        mech=[('monomial_pow, key_evaluate, monomial_subs', PM + ', ' + PMC + ', ' + DPM)],
        observe=['obake::monomial_pow', 'obake::key_evaluate', 'obake::monomial_subs']),
    'C08': dict(
        title='Monomials and their symbols: construction, extension, trimming',
        statement='Extending a monomial to more symbols inserts zero exponents exactly at the new symbols, trimming removes exactly the selected exponents, and identifying trimmable symbols clears a mark exactly where an exponent is nonzero. '
                  'All ways of building a monomial from the same exponents give equal monomials or all fail, and what does not fit the exponent range or the supported number of variables is always rejected with the documented error.',
        over=['inputs'], quant='all monomial types, numbers of variables, insertion places and counts, subsets, exponent vectors and raw values',
        why=NOT_BUILT, files=[PM, PMC, DPM, 'include/obake/key/key_merge_symbols.hpp', 'include/obake/key/key_trim.hpp', 'include/obake/key/key_trim_identify.hpp', 'include/obake/key/key_is_compatible.hpp'],
        mech=[('key_merge_symbols, key_trim, key_trim_identify, key_is_compatible, constructors', PM + ', ' + PMC + ', ' + DPM)],
        observe=['obake::key_merge_symbols', 'obake::key_trim', 'obake::key_trim_identify', 'obake::key_is_compatible']),
    'C09': dict(
        title='Algebra of symbol sets',
        statement='Merging two symbol sets yields the ordered union, and each insertion map sends the symbols of one set to their positions in the union: applying it to the set gives the union, whatever the two sets are. '
                  'Intersections, indices of symbols in a set and membership are those of the mathematical sets, with symbols ordered and compared by name.',
        over=['inputs'], quant='all pairs of ordered symbol sets with few symbols, including empty, equal, disjoint and interleaved ones',
        why='The number of relative positions of two sets is exponential, and the whole module is outside the official build here.',
        files=['include/obake/symbols.hpp', 'src/symbols.cpp'],
        mech=[('merge_symbol_sets, ss_intersect_idx, ss_index_of', 'src/symbols.cpp')],
        observe=['obake::detail::merge_symbol_sets', 'obake::symbol_set']),
    'C10': dict(
        title='Checked integer conversions and sums',
        statement='Converting a number between two types yields exactly the same number or reports failure, and it succeeds if and only if the number is a value of the target type; a failed conversion does not modify the target. '
                  'Checked additions and subtractions yield the exact result, or an overflow error if and only if the exact result is not a value of the type.',
        over=['inputs'], quant='all pairs of integer types up to 128 bits and all values; multiprecision integers and rationals',
        why='2^64 and 2^128 values and mixed signedness; the code is outside the official build here.',
        files=['include/obake/math/safe_convert.hpp', 'include/obake/math/safe_cast.hpp', 'include/obake/detail/safe_integral_arith.hpp', 'include/obake/detail/limits.hpp'],
        mech=[('safe_convert default implementations', 'include/obake/math/safe_convert.hpp'), ('safe_int_add, safe_int_sub', 'include/obake/detail/safe_integral_arith.hpp')],
        observe=['obake::safe_convert', 'obake::safe_cast', 'obake::detail::safe_int_add']),
    'C11': dict(
        title='Decimal representation of integers',
        statement='The decimal representation of an integer is its shortest decimal numeral, with a minus sign for negative numbers and no locale dependence: reading it back gives the number, for every integer type up to 128 bits and including the extreme values.',
        over=['inputs'], quant='all integer types from 8 to 128 bits, all values',
        why='Extreme values and digit boundaries of 2^128 values; tests compare a few random values only.',
        files=['include/obake/detail/to_string.hpp', 'src/detail/to_string.cpp', 'include/obake/cf/cf_stream_insert.hpp', 'src/cf/cf_stream_insert.cpp'],
        mech=[('digit loop, absolute value and buffer size', 'src/detail/to_string.cpp')],
        observe=['obake::detail::to_string']),
    'C12': dict(
        title='Locks and shared storage under every schedule',
        statement='Sections guarded by the same spin lock never overlap, everything written in one is visible in the next, and the lock is released however the section is left; the flags of an array are independent, initially clear and as many as asked for. '
                  'Global storage requested concurrently for a type is created exactly once, is the same for all the threads and is distinct for distinct types, also after a failed allocation.',
        over=['schedules', 'faults'], quant='2-3 threads, every interleaving with a bounded number of preemptions, the happens-before order of the actual memory orders',
        why='A missing acquire or release, or an unlocked access, shows only under specific interleavings.',
        files=['include/obake/detail/atomic_flag_array.hpp', 'src/detail/atomic_flag_array.cpp', 'include/obake/detail/atomic_lock_guard.hpp', 'include/obake/detail/fw_utils.hpp', 'src/detail/fw_utils.cpp'],
        mech=[('atomic_lock_guard', 'include/obake/detail/atomic_lock_guard.hpp'), ('fw_fetch_storage', 'src/detail/fw_utils.cpp')],
        observe=['obake::detail::atomic_lock_guard', 'obake::detail::fw_fetch_storage']),
    'C13': dict(
        title='Random generator is xoroshiro128+ from every state',
        statement='From every seed the generator produces the sequence of the reference xoroshiro128+ generator, its state transition is a permutation of the states, and random integers of any type are made of consecutive numbers of the sequence (the low bits; for 128 bits two numbers, the first being the most significant half).',
        over=['inputs'], quant='every 128-bit state, every integer type',
        why='A wrong shift or a lost bit still looks random to a test.',
        files=['include/obake/detail/xoroshiro128_plus.hpp'],
        mech=[('next, rotl, random', 'include/obake/detail/xoroshiro128_plus.hpp')],
        observe=['obake::detail::xoroshiro128_plus']),
    'C14': dict(
        title='Generic operations select and forward as documented',
        statement='Each generic operation (degree, partial degree, hash, size, trimming, calculus, truncation, negation, zero test, power, fused multiply-add) calls the user customisation if there is one, else the overload found by lookup, else the documented default, handing over the argument itself with its value category and constness and the other arguments unchanged. '
                  'The defaults compute the mathematical operation for numbers, and the helpers visit, cast and iterate over every element once, in order.',
        over=['inputs'], quant='all operations, all kinds of argument, all integer values',
        why='Tests check that the calls compile, with a few values; dropped forwarding or precedence goes unnoticed.',
        files=['include/obake/math/degree.hpp', 'include/obake/math/pow.hpp', 'include/obake/math/is_zero.hpp', 'include/obake/math/negate.hpp', 'include/obake/math/fma3.hpp', 'include/obake/math/trim.hpp', 'include/obake/hash.hpp', 'include/obake/byte_size.hpp', 'include/obake/ranges.hpp', 'include/obake/detail/fcast.hpp', 'include/obake/detail/tuple_for_each.hpp'],
        mech=[('priority-tag overloads of each operation', 'include/obake/math/*.hpp')],
        observe=['obake::degree', 'obake::pow', 'obake::hash', 'obake::begin']),
    'C15': dict(
        title='Series stay canonical through construction, insertion and conversion',
        statement='Whatever is inserted into a series, in whatever order, sign and segmentation, the series holds exactly the keys whose coefficients sum to a nonzero value, each once, in the segment of its hash, with that sum as coefficient; incompatible keys are rejected without effect. '
                  'Copies, moves, swaps, conversions between coefficient types and ranks, and extensions of the symbol set preserve the function from keys to coefficients and this canonical form, and searching and iterating see exactly those terms.',
        over=['inputs', 'histories'], quant='all keys, coefficients and signs, sequences of insertions, segmentations, symbol sets',
        why='Cancellations, hash collisions and terms that become zero in a conversion need specific values; the tests that cover them are outside the official build here.',
        files=['include/obake/series.hpp', 'src/series.cpp', 'include/obake/symbols.hpp', 'src/symbols.cpp'],
        state=[('m_s_table', 'array of hash tables, one per segment', 'include/obake/series.hpp series')],
        mech=[('series_add_term', 'include/obake/series.hpp'), ('series_sym_extender', 'include/obake/series.hpp'), ('generic constructor', 'include/obake/series.hpp')],
        observe=['obake::series::add_term', 'obake::series::find', 'obake::series::begin', 'obake::series_add_symbols']),
    'C16': dict(
        title='Sums and differences of series',
        statement='The sum or difference of two series, binary or in place, represents the sum or difference of the two functions from keys to coefficients over the union of the symbols, in canonical form, for operands of equal or different symbol sets, coefficient types, ranks, segmentations and value categories. '
                  'Operands passed as constants are unchanged, also when both operands are the same object.',
        over=['inputs'], quant='all pairs of series of a few terms, all keys and coefficients, all relations of the symbol sets',
        why='Cancellation, moved-from operands and the choice of the operand that is copied interact with sizes and symbol sets; tests fix a few examples.',
        files=['include/obake/series.hpp', 'include/obake/symbols.hpp', 'src/symbols.cpp'],
        mech=[('series_default_addsub_impl, series_default_in_place_addsub_impl', 'include/obake/series.hpp'), ('detail::merge_symbol_sets', 'src/symbols.cpp')],
        observe=['operator+', 'operator-', 'operator+=', 'operator-=']),
    'C17': dict(
        title='Equality of series',
        statement='Two series compare equal exactly when, over the union of their symbols, they are the same function from keys to coefficients and their tags are equal, whatever the segmentation, the order and partial sums of the insertions, unused symbols, the coefficient types and the value categories; a series equals a constant exactly when it is that constant. '
                  'Equality is symmetric, inequality is its negation, and comparing leaves operands that are not expiring unchanged.',
        over=['inputs', 'histories'], quant='all pairs of series of a few terms, all relations of the symbol sets, all segmentations',
        why='False positives need series that agree on all the terms that are sampled; tests compare a few fixed pairs.',
        files=['include/obake/series.hpp'],
        mech=[('series_cmp_identical_ss, series_equal_to_impl', 'include/obake/series.hpp')],
        observe=['operator==', 'operator!=', 'obake::series_equal_to']),
    'C18': dict(
        title='Multiplication and division of series by coefficients',
        statement='Multiplying or dividing a series by anything of lower rank multiplies or divides every coefficient by it and removes exactly the terms whose coefficients become zero; keys, symbols, segments and tag stay, the result is canonical, and constant operands are unchanged. '
                  'This holds when the scalar is zero, when it is one of the coefficients of the series, and for the in-place forms.',
        over=['inputs'], quant='all series of up to 3 terms, all scalars, including zero divisors and quotients that vanish',
        why='Terms that vanish appear only with zero divisors or truncating division at particular values.',
        files=['include/obake/series.hpp'],
        mech=[('series_default_mul_impl, series_default_div_impl', 'include/obake/series.hpp')],
        observe=['operator*', 'operator/', 'operator*=', 'operator/=']),
    'C19': dict(
        title='Products of polynomials are exact or report overflow',
        statement='The product of two polynomials is, over the union of their symbols, the function that maps each monomial to the sum of the products of the coefficients of the pairs of terms whose monomials multiply to it, in canonical form; if and only if some product of two monomials is not representable, an overflow error is raised instead. '
                  'This holds for the plain and for the multi-threaded algorithm, however many segments it uses and however the work is split, and the operands are unchanged.',
        over=['inputs', 'schedules'], quant='all monomials and coefficients of polynomials of a few terms, all segment counts and splits',
        why='Segments combine by the hashes of the terms, modulo wrap-around: errors depend on the combination of hashes, and small operands never take the multi-threaded path.',
        files=['include/obake/polynomials/polynomial.hpp', 'include/obake/polynomials/packed_monomial.hpp', 'include/obake/polynomials/d_packed_monomial.hpp', 'include/obake/detail/to_string.hpp'],
        mech=[('poly_mul_impl_simple', 'include/obake/polynomials/polynomial.hpp'), ('poly_mul_impl_mt_hm: segmentation, dense and sparse functors', 'include/obake/polynomials/polynomial.hpp'), ('poly_mul_estimate_product_size', 'include/obake/polynomials/polynomial.hpp')],
        observe=['operator* of polynomials']),
    'C20': dict(
        title='Truncated products and truncation of polynomials',
        statement='The truncated product is made of exactly the products of pairs of terms whose total or partial degrees sum to no more than the limit, in canonical form, and equals the truncation of the full product, for both algorithms and every limit. '
                  'Truncating a polynomial removes exactly the terms whose degree exceeds the limit.',
        over=['inputs', 'schedules'], quant='all polynomials of a few terms, all limits, all sets of variables',
        why='The algorithms sort by degree and stop early: a wrong bound loses or keeps terms only for particular degrees and segmentations.',
        files=['include/obake/polynomials/polynomial.hpp', 'include/obake/series.hpp', 'include/obake/math/truncate_degree.hpp', 'include/obake/math/truncate_p_degree.hpp'],
        mech=[('compute_j_end, compute_end_idx2, seg_sorter', 'include/obake/polynomials/polynomial.hpp'), ('make_degree_vector, make_p_degree_vector', 'include/obake/series.hpp')],
        observe=['obake::polynomials::truncated_mul', 'obake::truncate_degree', 'obake::truncate_p_degree']),
    'C21': dict(
        title='Derivatives, integrals, substitutions and evaluations of polynomials',
        statement='The derivative of a polynomial is the sum, over its terms, of the derivative of the coefficient times the monomial plus the coefficient times the derivative of the monomial; its integral is the sum of the coefficients times the integrals of the monomials, over the symbols of the polynomial plus the variable, and is refused with an invalid-argument error exactly when a coefficient depends on the variable. '
                  'Substitution replaces exactly the named symbols, and evaluation gives the sum of the coefficients times the values of the monomials or an invalid-argument error if a symbol has no value. Results are canonical, errors of the monomials propagate, and operands passed as constants are unchanged.',
        over=['inputs'], quant='all polynomials of a few terms, all variables present or absent, all maps of values',
        why='Terms that cancel or vanish and variables absent from the polynomial need combinations that the few fixed examples of the tests do not have.',
        files=['include/obake/polynomials/polynomial.hpp', 'include/obake/series.hpp'],
        mech=[('poly_diff_impl', 'include/obake/polynomials/polynomial.hpp'), ('poly_integrate_impl', 'include/obake/polynomials/polynomial.hpp'), ('poly_subs_impl', 'include/obake/polynomials/polynomial.hpp'), ('series_default_evaluate_impl', 'include/obake/series.hpp')],
        observe=['obake::diff', 'obake::integrate', 'obake::subs', 'obake::evaluate']),
    'C22': dict(
        title='Powers of series and the cache of powers',
        statement='Raising a series to a power gives the power of its coefficient if it is a single coefficient, the power of the monomial and of the coefficient if it is a polynomial with a single term whose monomial has such powers, one if the exponent is zero, and otherwise the product of that many copies of the series; an invalid-argument error is raised exactly when the exponent is not a natural number or the type has no such product. '
                  'The result does not depend on what was requested before, nor on failures, segmentation or the clearing of the cache: series that differ in any key, coefficient or symbol never share a cached power. Operands are unchanged.',
        over=['inputs', 'histories'], quant='all series of a few terms, all exponents up to a bound and all negative ones, all short histories of requests',
        why='A wrong cache answers wrongly only for a second series that collides with an earlier one; a test that computes each power once cannot see it.',
        files=['include/obake/series.hpp', 'src/series.cpp', 'include/obake/polynomials/polynomial.hpp', 'include/obake/math/pow.hpp'],
        state=[('series_pow_map_t', 'global map from types to maps from series to their powers', 'src/series.cpp get_series_pow_map')],
        mech=[('series_pow_from_cache', 'include/obake/series.hpp'), ('series_are_identical', 'include/obake/series.hpp'), ('pow_poly_impl', 'include/obake/polynomials/polynomial.hpp'), ('clear_series_pow_map', 'src/series.cpp')],
        observe=['obake::pow']),
    'C23': dict(
        title='Degrees, trimming, filtering, extension, size of series; generators',
        statement='The total (partial) degree of a series is the greatest degree of its terms (in the given symbols), coefficients and keys included, zero for an empty series, and an overflow error if the sum for a term is not representable. '
                  'Trimming removes exactly the symbols no term uses and trims the coefficients, filtering keeps exactly the terms that satisfy the predicate, and adding symbols changes nothing but the symbol set; all keep the segmentation and return canonical series, leaving constant operands unchanged. '
                  'The size in memory is the sum of the sizes of the parts, and generators are the polynomials with exponent one in the named symbol, which must be in the set if one is given.',
        over=['inputs'], quant='all series of a few terms, all sets of names, all predicates of a family',
        why='Which symbols are unused and which terms vanish depends on the combination of all the terms.',
        files=['include/obake/series.hpp', 'include/obake/polynomials/polynomial.hpp', 'include/obake/symbols.hpp', 'src/symbols.cpp', 'include/obake/math/degree.hpp', 'include/obake/math/p_degree.hpp', 'include/obake/math/trim.hpp', 'include/obake/byte_size.hpp'],
        mech=[('series_default_degree_impl, series_default_p_degree_impl', 'include/obake/series.hpp'), ('series_default_trim_impl', 'include/obake/series.hpp'), ('filter_impl, filtered_impl, add_symbols_impl', 'include/obake/series.hpp'), ('series_default_byte_size_impl', 'include/obake/series.hpp'), ('make_polynomials_impl', 'include/obake/polynomials/polynomial.hpp')],
        observe=['obake::degree', 'obake::p_degree', 'obake::trim', 'obake::filter', 'obake::filtered', 'obake::add_symbols', 'obake::byte_size', 'obake::make_polynomials']),
    'C24': dict(
        title='Power series: truncated results, consistent truncation settings',
        statement='Every sum, difference, product, power, derivative and integral of power series, and every operation with a constant, yields exactly the terms of the result without truncation whose total or partial degree is within the limit; operands whose settings differ are refused with an invalid-argument error and stay as they were, and an operand without truncation adopts the setting of the other. '
                  'The setting survives copies, moves, conversions, negation, trimming, filtering and extension of the symbols, is part of equality and never mixes cached powers; setting it discards exactly the terms beyond the limit, and a limit that is not representable is refused without effect.',
        over=['inputs', 'histories'], quant='all power series of a few terms, all limits, all combinations of settings and symbol sets',
        why='Settings are lost or mixed only for particular combinations of settings, symbol sets and value categories; tests sample few of them.',
        files=['include/obake/power_series/power_series.hpp', 'include/obake/series.hpp', 'include/obake/polynomials/polynomial.hpp'],
        state=[('tag.trunc', 'none, limit of the total degree, or limit and symbols of the partial degree', 'include/obake/power_series/power_series.hpp tag')],
        mech=[('ps_addsub_impl, ps_in_place_addsub_impl', 'include/obake/power_series/power_series.hpp'), ('series_mul of power series', 'include/obake/power_series/power_series.hpp'), ('set_truncation_impl, truncate', 'include/obake/power_series/power_series.hpp'), ('series_pow_from_cache', 'include/obake/series.hpp')],
        observe=['obake::set_truncation', 'obake::get_truncation', 'obake::truncate', 'obake::make_p_series_t', 'operator+', 'operator*', 'obake::pow']),
    'C25': dict(
        title='Saving and loading gives back what was saved',
        statement='Loading an archive into any object gives an object equal to the one that was saved, for symbol sets, monomials of both kinds with any contents, series (keys, coefficients, symbols, segmentation, tag, series as coefficients) and power series with their truncation, whatever the object held before, and reads exactly the items that were written. '
                  'If the archive fails at any point, the exception propagates and the series loaded into is left empty, without symbols or truncation, and usable; an unknown kind of truncation is refused.',
        over=['inputs', 'faults'], quant='all values, all series of a few terms, all previous contents, all points of failure',
        why='Failures in the middle of an archive and stale contents of the destination need particular histories; the tests are outside the official build here.',
        files=['include/obake/series.hpp', 'include/obake/symbols.hpp', 'include/obake/s11n.hpp', 'include/obake/polynomials/packed_monomial.hpp', 'include/obake/polynomials/d_packed_monomial.hpp', 'include/obake/power_series/power_series.hpp'],
        mech=[('series::save, series::load', 'include/obake/series.hpp'), ('load of symbol_set', 'include/obake/symbols.hpp'), ('load of trunc_t', 'include/obake/power_series/power_series.hpp'), ('d_packed_monomial::load', 'include/obake/polynomials/d_packed_monomial.hpp')],
        observe=['boost::archive operator<<', 'boost::archive operator>>']),
    'C26': dict(
        title='The printed form of an object denotes that object',
        statement='The plain text of a monomial, polynomial or power series, read back with the usual precedence of operators, gives exactly the terms of the object, also when the coefficients are polynomials themselves and when a polynomial is printed as a coefficient, and the same holds for the TeX form (negative powers as fractions, rationals, truncation order). '
                  'Exactly 50 distinct terms are printed, followed by an ellipsis, if the object has more; an empty object is printed as 0, the header reports the rank, the symbols, the number of terms and the truncation, and 128-bit integers are printed in decimal.',
        over=['inputs'], quant='all values of exponents and coefficients within the bounds',
        why='Suppressed unit coefficients, signs, brackets and unit keys interact; the tests compare some strings, and only outside the official build here.',
        files=['include/obake/series.hpp', 'src/series.cpp', 'src/polynomials/packed_monomial.cpp', 'include/obake/polynomials/d_packed_monomial.hpp', 'include/obake/power_series/power_series.hpp', 'src/tex_stream_insert.cpp', 'include/obake/tex_stream_insert.hpp', 'src/cf/cf_stream_insert.cpp'],
        mech=[('series_stream_single_term', 'src/series.cpp'), ('series_stream_terms_impl', 'include/obake/series.hpp'), ('series_default_cf_stream_insert_impl', 'include/obake/series.hpp'), ('key_stream_insert, key_tex_stream_insert', 'src/polynomials/packed_monomial.cpp'), ('tex_stream_insert', 'include/obake/power_series/power_series.hpp')],
        observe=['operator<<', 'tex_stream_insert', 'cf_stream_insert', 'key_stream_insert']),
    'C27': dict(
        title='An operation that fails part-way leaves every object usable',
        statement='If an operation on coefficients or keys, or an allocation, throws at any point of an operation on series, polynomials or power series, that exception reaches the caller and the operands that were not to be modified or moved from are unchanged. '
                  'The objects that were to be modified or moved from either have been moved from, or are canonical series (consistent segmentation, distinct compatible keys, no zero coefficients, truncated as their truncation setting says) that can be cleared and used again; copying into an object is an operation that modifies it. '
                  'A filter or truncation that fails has not removed a term that was to be kept, and the cache of powers gives right results afterwards.',
        over=['inputs', 'faults'], quant='every point of failure, for all values of exponents and coefficients within the bounds',
        why='The code has clearing guards and catch blocks for this, each for one place; the tests do not inject failures.',
        files=['include/obake/series.hpp', 'include/obake/polynomials/polynomial.hpp', 'include/obake/power_series/power_series.hpp'],
        mech=[('series_add_term_table (clears the table)', 'include/obake/series.hpp'), ('series_rref_clearer', 'include/obake/series.hpp'), ('series_default_mul_impl, series_default_div_impl (catch blocks)', 'include/obake/series.hpp'), ('poly_mul_impl_mt_hm, poly_mul_impl_simple (catch blocks)', 'include/obake/polynomials/polynomial.hpp'), ('set_truncation_impl, ps_in_place_addsub_impl', 'include/obake/power_series/power_series.hpp')],
        observe=['series::operator=', 'operator+', 'operator+=', 'operator*', 'operator/=', 'filter', 'set_truncation', 'pow']),
}
