REGISTRY = {
 'G01': ('kernel.gf', 'G01', 'bit-level ANF value numbering of the LLVM IR of every product/square entry point, compared with the canonical polynomials of the field product'),
 'G02': ('kernel.gf', 'G02', 'bit-level ANF value numbering of sums, differences, negation and constants'),
 'G03': ('kernel.gf', 'G03', 'formal-power domain over the IR of inverse(); order of the declared generator'),
 'G04': ('kernel.gf', 'G04', 'bit-level ANF value numbering of comparison, conversion, hashing and serialisation'),
}
REGISTRY['S01'] = ('kernel.scalar', 'S01', 'bit-level ANF value numbering of every scalar conversion and bit access, all bit positions')
REGISTRY['S03'] = ('kernel.scalar', 'S03', 'provenance of every output bit of Randomize in the ANF domain; request length compared symbolically in the span length')
REGISTRY['P01'] = ('kernel.scalar', 'P01', 'bit-level ANF value numbering of packing, unpacking and block conversion, all positions and multipliers 2^j')
REGISTRY['S02'] = ('astp.ntl', 'S02', 'closed-form summary of every NTL scalar conversion, compared by normal form')
REGISTRY['S04'] = ('astp.ntl', 'S04', 'closed-form summary of CanBeHashedInto compared with the distance bound')
REGISTRY['N01'] = ('astp.ntl', 'N01', 'summary of the cached width over an arbitrary sequence of modulus changes; storage duration of every static object')
REGISTRY['A01'] = ('astp.aes', 'A01', 'induction over calls on closed-form summaries of Create, seed and operator()')
REGISTRY['T01'] = ('astp.ggm', 'T01', 'closed-form and recurrence summaries of the GGM tree functions, compared by normal form and induction')
REGISTRY['T02'] = ('astp.ggm', 'T02', 'closed-form summary of GetSiblingWiseXOR compared by normal form')
REGISTRY['T03'] = ('astp.ggm', 'T03', 'recurrence summary of CreateFromSiblingWiseXOR, induction over levels')
REGISTRY['T04'] = ('astp.ggm', 'T04', 'recurrence summary of CreateFromSiblingWiseXOR, interpreted over XORs of original nodes for every tree shape within the bounds')
REGISTRY['F01'] = ('astp.spfss', 'F01', 'closed-form summaries of both roles composed over the exchanged message, compared by normal form')
REGISTRY['O01'] = ('astp.rot', 'O01', 'closed-form summaries of both roles composed over the exchanged messages, compared by normal form')
REGISTRY['O02'] = ('astp.rot', 'O02', 'provenance of every transmitted and secret value in closed-form summaries of both roles')
REGISTRY['L01'] = ('astp.gilboa', 'L01', 'closed-form summaries of both roles composed over the oblivious transfers, compared by normal form')
REGISTRY['L02'] = ('astp.gilboa', 'L02', 'provenance of every transmitted value and mask in closed-form summaries of both roles')
REGISTRY['M01'] = ('astp.mpfss', 'M01', 'closed-form summaries of both roles composed over the exchanged vector and the contracts of the layers below')
REGISTRY['M02'] = ('astp.mpfss', 'M02', 'effect summary of UpdateBuckets from an arbitrary cached state: inductive invariant relating the cached sizes and the stored buckets')
REGISTRY['C01'] = ('astp.cuckoo', 'C01', 'closed-form summaries of Create and Hash compared by normal form')
REGISTRY['C02'] = ('astp.cuckoo', 'C02', 'append-log summary of HashSimple compared by normal form; homomorphism rule for the parallel merge')
REGISTRY['C03'] = ('astp.cuckoo', 'C03', 'inductive invariant over the loop summary of HashCuckoo')
REGISTRY['C04'] = ('astp.cuckoo', 'C04', 'closed-form summary of GetOptimalNumberOfBuckets compared by normal form')
REGISTRY['R01'] = ('astp.races', 'R01', 'element-disjointness of symbolic iterations of every worksharing loop')
REGISTRY['N02'] = ('astp.races', 'N02', 'modulus contexts in parallel regions')
REGISTRY['V01'] = ('astp.vole', 'V01', 'closed-form and recurrence summaries of both roles composed over the contracts of the layers below; product induction over the loops')
REGISTRY['V02'] = ('astp.vole2', 'V02', 'effect summaries of failing paths of Precompute, Run and Expand')
REGISTRY['V03'] = ('astp.vole2', 'V03', 'closed-form summary of PrecomputeCommon for both roles composed over the exchanged seed')
REGISTRY['V04'] = ('astp.vole2', 'V04', 'constant tables compared row by row')
REGISTRY['V05'] = ('astp.vole2', 'V05', 'origin of every element of caches, seeds and results in closed-form summaries; injectivity of positions')
REGISTRY['X01'] = ('astp.setup', 'X01', 'closed-form summaries of every Create function: argument conditions, security budget, exchanged seed and initial state')
REGISTRY['E01'] = ('astp.errors', 'E01', 'status codes in closed-form summaries of every refusing entry point')
