K_NOTE = ('Every bit of the result is a canonical polynomial in the input bits, so equality is decided for all inputs. '
          'Trusted: clang 18 and its -O2 pipeline, the IR reader and the ANF domain in kernel/.')
K_TECH = 'abstract interpretation of LLVM IR in a bit-level algebraic-normal-form domain'

prop('G01', 'GF(2^128) multiplication and squaring are the field product',
     'For all elements a and b, in-place and by-value multiplication and squaring return a*b in GF(2)[x]/(x^128+x^7+x^2+x+1), '
     'also when both operands are the same object. The other operand is never modified. The portable and the carry-less-'
     'multiply builds agree.',
     ['inputs', 'configurations'], 'all 2^256 operand pairs, aliased or not, both build variants',
     'The test multiplies a few dozen fixed SageMath pairs in one build variant; a wrong carry or reduction bit shows only for '
     'particular bit patterns, and the portable path is never compiled.',
     ['gf128.cpp', 'gf128.h'], [('operator*=', 'gf128.cpp'), ('square', 'gf128.cpp')], K_TECH, 'proof', K_NOTE,
     observe=['gf128::operator*=', 'gf128::operator*', 'gf128::square', 'gf128::squared'])
prop('G02', 'GF(2^128) addition, subtraction, negation and constants',
     'Sum and difference of two elements are their coefficient-wise exclusive or, x + (-x) is zero and -x equals x; zero(), '
     'one() and default construction have their field meaning. Operands other than the receiver are unchanged, and x += x and '
     'x -= x give zero.',
     ['inputs'], 'all element pairs, aliased or not', 'No test covers addition, subtraction or negation at all.',
     ['gf128.cpp', 'gf128.h'], [('operator+= / operator-=', 'gf128.cpp'), ('operator-()', 'gf128.cpp')], K_TECH, 'proof',
     K_NOTE, observe=['gf128 arithmetic operators'])
prop('G03', 'GF(2^128) inverse and the declared multiplicative generator',
     'inverse() returns the unique element y with x*y = 1 for every non-zero x (and zero for zero) and does not modify x; the '
     'declared multiplicative generator generates the whole multiplicative group.',
     ['inputs'], 'all 2^128 elements', 'The test inverts a handful of random elements.',
     ['gf128.cpp'], [('inverse', 'gf128.cpp'), ('multiplicative_generator', 'gf128.cpp')],
     'abstract interpretation of LLVM IR in a formal-power (exponent) domain', 'proof',
     'Exponents are exact; relies on G01 for the meaning of products. The order of the generator is computed from the constant '
     'initialiser and the factorisation of 2^128-1.', observe=['gf128::inverse'])
prop('G04', 'GF(2^128) comparison, conversion, hashing and serialisation agree',
     'Two elements compare equal exactly when all 128 bits agree; conversion to and from 128-bit integers, 64-bit words and '
     'serialised archives preserves every bit; the hash is fed every bit of the element, so distinct elements feed distinct data.',
     ['inputs'], 'all elements and element pairs', 'Tests compare a few values and never serialise or hash.',
     ['gf128.cpp', 'gf128.h'], [('operator==', 'gf128.cpp'), ('serialize', 'gf128.h'), ('AbslHashValue', 'gf128.h')], K_TECH,
     'proof', K_NOTE, observe=['operator==', 'serialize', 'AbslHashValue', 'as_words'])
prop('S01', 'Scalar conversions and bit access for integers and GF(2^128)',
     'For every supported built-in integer width and GF(2^128), converting a 128-bit value to the scalar keeps exactly its low '
     'bits, converting back is the identity, reading bit k returns bit k, and the element with bit k set has no other bit set, '
     'for every k.',
     ['inputs'], 'all values, all bit positions, all supported scalar types',
     'There is no test of these helpers; protocol tests use small values for which high bit positions never matter.',
     ['internal/scalar_helpers.h'], [('ScalarHelper', 'internal/scalar_helpers.h')], K_TECH, 'proof', K_NOTE,
     observe=['ScalarHelper::FromUint128', 'ToUint128', 'GetBit', 'SetBit', 'SizeOf'])
prop('S03', 'Random scalars fill every bit of every element',
     'Randomizing a span of built-in integers or GF(2^128) elements overwrites every byte of every element with fresh output of '
     'the cryptographic generator, for every span length, and touches nothing else; randomizing a span of NTL elements sets every '
     'element to its own fresh value of NTL\'s generator.',
     ['inputs'], 'all span lengths and element types',
     'A test can only see that outputs look random; a never-randomised tail or byte is invisible to protocol tests.',
     ['internal/scalar_helpers.h', 'gf128.cpp'], [('ScalarHelper::Randomize', 'internal/scalar_helpers.h'),
                                                  ('gf128::randomize', 'gf128.cpp')], K_TECH, 'proof', K_NOTE,
     observe=['ScalarHelper::Randomize', 'gf128::randomize'])
prop('P01', 'Packing into 128-bit blocks is a carry-free bijection',
     'Packing scalars into a 128-bit oblivious-transfer block and unpacking them returns the same scalars, each scaled by the '
     'given power of two with no carry into its neighbour; conversions between the block types of the tree and of the '
     'transfer library preserve every bit, and the bit decomposition lists bit k at index k.',
     ['inputs'], 'all element values, all powers of two, all supported integer types and GF(2^128)',
     'Protocol tests exercise small packed values; cross-lane carries and swapped halves need particular bit patterns.',
     ['internal/gilboa_internal.h', 'internal/all_but_one_random_ot_internal.h'],
     [('SpanToEMPBlock / EMPBlockToSpan', 'internal/gilboa_internal.h'),
      ('EMPToGGMTreeBlock / GGMTreeToEMPBlock', 'internal/all_but_one_random_ot_internal.h')], K_TECH, 'proof', K_NOTE,
     observe=['SpanToEMPBlock', 'EMPBlockToSpan', 'GetBits'])

T_TECH = 'type-checked AST summarised to closed-form terms (dataflow with loop summaries), compared by normal form'
T_NOTE = ('Summaries are exact terms over the inputs; an obligation is discharged only when its normal form equals the required one. '
          'A mismatch is reported only with a refuting interpretation of the two terms; otherwise it is counted undecided. '
          'Trusted: clang 18 front end, models of NTL/absl/OpenSSL calls in astp/libmodel.py.')

prop('S02', 'Conversions and bit access for NTL modular integers',
     'For NTL::ZZ_p and NTL::zz_p under every installed modulus p: converting a 128-bit value to the scalar yields that value mod p, '
     'independently of any earlier call; converting back yields the canonical representative (low 128 bits); reading bit k returns bit k of '
     'the representative; the element for bit k is 2^k mod p; and the element size is the number of bytes of p-1, also after the modulus '
     'was changed.',
     ['inputs', 'configurations', 'histories'], 'all moduli, all 128-bit values, all bit positions, all call and modulus histories',
     'No test calls these helpers directly; protocol tests use three fixed moduli and never change the modulus in a running thread.',
     ['internal/scalar_helpers.h', 'internal/ntl_helpers.cpp'],
     [('ScalarHelperImpl<NTL::ZZ_p>', 'internal/scalar_helpers.h'), ('ScalarHelperImpl<NTL::zz_p>', 'internal/scalar_helpers.h'),
      ('NTLTemp', 'internal/ntl_helpers.cpp')], T_TECH, 'proof', T_NOTE,
     observe=['ScalarHelper<NTL::ZZ_p>', 'ScalarHelper<NTL::zz_p>'])
prop('S04', 'Hash-to-scalar guard is sound',
     'CanBeHashedInto(s, b) answers true only if mapping a uniform b-bit value (1 <= b <= 128) to the scalar type is within statistical '
     'distance 2^-s of uniform, for every scalar type and every modulus, including moduli above 2^128; and for moduli below 2^b it answers '
     'true whenever (2^b mod p)/2^b < 2^-s.',
     ['inputs', 'configurations'], 'all moduli, hash widths 1..128 and security parameters',
     'The guard protects uniformity of masks, which no functional test can observe; tests only use accepted parameters.',
     ['internal/scalar_helpers.h'], [('CanBeHashedInto', 'internal/scalar_helpers.h')], T_TECH, 'proof',
     T_NOTE + ' Doubles are treated as reals.', observe=['ScalarHelper::CanBeHashedInto'])
prop('N01', 'Modulus width always belongs to the modulus installed in this thread',
     'NTLNumBits returns the bit length of p-1 for the modulus p currently installed in the calling thread, for every history of modulus '
     'changes and calls; state kept between calls (cached width, temporaries) is never shared between threads.',
     ['histories', 'schedules'], 'all sequences of modulus changes and calls, all thread interleavings',
     'Tests install one modulus per type and process; a stale cache shows only after a particular change of modulus, a shared one only '
     'under a particular interleaving.',
     ['internal/ntl_helpers.cpp', 'internal/ntl_helpers.h'], [('NTLNumBitsCached', 'internal/ntl_helpers.cpp'),
                                                              ('NTLTemp', 'internal/ntl_helpers.cpp')],
     T_TECH + '; induction over the call history; storage-duration rule', 'proof', T_NOTE, observe=['NTLNumBits', 'NTLTemp'])
prop('A01', 'The AES generator is AES counter mode for every buffer size and history',
     'After Create or seed with at least 32 bytes, call t of AESUniformBitGenerator returns half t mod 2 of AES-128(first 16 seed bytes, '
     'nonce + t/2), for every buffer size and every earlier history; shorter seeds are rejected and change nothing; it refuses exactly when '
     'more than kReseedInterval AES calls under one seed would be needed, and keeps refusing until seeded again.',
     ['inputs', 'histories'], 'all seeds, buffer sizes, call counts and reseed histories',
     'The tests check reproducibility for one even buffer size; wrong outputs need an odd size, a refill boundary, a reseed in mid-buffer or '
     '2^48 calls.',
     ['aes_uniform_bit_generator.cpp', 'aes_uniform_bit_generator.h'],
     [('AESUniformBitGenerator::operator()', 'aes_uniform_bit_generator.cpp'), ('AESUniformBitGenerator::seed', 'aes_uniform_bit_generator.cpp')],
     T_TECH + '; induction over calls', 'proof', T_NOTE + ' AES is an uninterpreted function; sizes that overflow int64 are out of scope.',
     observe=['AESUniformBitGenerator::Create', 'seed', 'operator()'])
prop('T01', 'A GGM tree is the PRG tree of its seed',
     'GGMTree::Create with at least two keys and a positive number of leaves succeeds (InvalidArgument otherwise, never an exception) and '
     'returns a tree whose root is the seed, whose level m above the leaves has ceil(leaves/arity^m) nodes with a single root, and whose node j '
     'of every level is AES(k_(j mod arity), parent) xor parent with parent j div arity; node access succeeds exactly for existing nodes.',
     ['inputs'], 'all arities, leaf counts, seeds, keys and node positions',
     'Tests build a few small trees; partly filled last subtrees, large arities and level sizes beyond 2^31 are not reached.',
     ['ggm_tree.cpp', 'ggm_tree.h'], [('GGMTree::Create', 'ggm_tree.cpp'), ('ExpandSubtree', 'ggm_tree.cpp'), ('GetValueAtNode', 'ggm_tree.cpp')],
     T_TECH + '; induction over levels', 'proof', T_NOTE + ' AES is an uninterpreted function; double logarithms are taken as exact.',
     observe=['GGMTree::Create', 'GetValueAtNode', 'GetValueAtLeaf', 'level_size', 'keys'])
prop('T02', 'Sibling-wise XORs cover every node of every level exactly once',
     'GetSiblingWiseXOR returns num_levels()-1 rows of arity() blocks; entry s of row l is the XOR of the nodes s, s+arity, s+2*arity, ... of '
     'level l+1, including a partly filled last group.',
     ['inputs'], 'all trees, also with levels beyond 2^31 nodes', 'Tests use full or tiny trees and recompute sums with the same code.',
     ['ggm_tree.cpp'], [('GetSiblingWiseXOR', 'ggm_tree.cpp'), ('XORBlocks', 'ggm_tree.cpp')], T_TECH, 'proof', T_NOTE,
     observe=['GGMTree::GetSiblingWiseXOR'])
prop('T03', 'Rebuilding a punctured tree validates its arguments and keeps the shape',
     'CreateFromSiblingWiseXOR never throws and succeeds exactly when arity >= 2, there is at least one leaf, the missing index is a leaf, there '
     'are arity keys and one arity-sized row of XORs per inner level; everything else is InvalidArgument. The rebuilt tree has the shape, keys and key '
     'schedules of the original.',
     ['inputs'], 'all argument combinations', 'Tests try one wrong argument at a time on one tree size.',
     ['ggm_tree.cpp'], [('CreateFromSiblingWiseXOR', 'ggm_tree.cpp')], T_TECH, 'proof', T_NOTE + ' Double logarithms and powers are taken as exact.',
     observe=['GGMTree::CreateFromSiblingWiseXOR'])
prop('T04', 'A punctured tree equals the original everywhere off the missing path',
     'Let a tree be built with some keys, number of leaves and seed. Rebuilding it with CreateFromSiblingWiseXOR from its keys and its sibling-wise '
     'XORs (whatever entries are supplied for the siblings on the path to the missing leaf) for any missing leaf yields a tree in which every node of '
     'every level, except those on the path from the root to the missing leaf, equals the corresponding node of the original tree and is readable.',
     ['inputs'], 'all keys, seeds and XOR entries on the path; tree shapes (arity, leaves, missing leaf) within the listed bounds',
     'Tests rebuild one or two tree sizes with one missing leaf.',
     ['ggm_tree.cpp'], [('CreateFromSiblingWiseXOR', 'ggm_tree.cpp'), ('ExpandSubtree', 'ggm_tree.cpp')],
     'symbolic summary of the rebuilt tree from the typed syntax tree, interpreted in the domain of XORs of original nodes for every tree shape within the bounds',
     'other', T_NOTE + ' Bounded: 10603 shapes (every missing leaf of trees of arity 2 to 9 with up to 30 to 66 leaves, six missing leaves of '
     'larger trees up to 626 leaves and arity 64); per shape the keys, seed and path entries are arbitrary (random interpretation of the summary terms, error 2^-100).',
     observe=['GGMTree::CreateFromSiblingWiseXOR'])
F_TECH = 'closed-form summaries of both roles from the typed syntax tree, composed over the exchanged message and compared by ring normal form'
F_NOTE = ('Both roles are summarised symbolically for all six scalar types (uint8_t, uint64_t, uint128, GF(2^128), ZZ_p, zz_p); OpenMP regions '
          'are read sequentially. Trusted: the models of the standard library, channel and oblivious transfer in astp/libmodel.py.')
prop('F01', 'SPFSS shares sum to the shared value at the index and to zero elsewhere',
     'For every batch of vector lengths, indices and value shares the two outputs of the single-point function secret sharing add up, in every '
     'scalar type, to the sum of both value shares at the receiver\'s index and to zero at every other position, including empty vectors; both roles '
     'exchange matching messages, flush what they send, reject mismatching sizes before communicating and never throw; the single-instance calls '
     'equal a batch of one.',
     ['inputs', 'configurations'], 'all batch sizes, vector lengths, indices, value shares and scalar types',
     'Tests run a few sizes and fixed values; an omitted or doubled term shows only for particular lengths or positions.',
     ['spfss_known_index.h'], [('RunValueProviderBatched', 'spfss_known_index.h'), ('RunIndexProviderBatched', 'spfss_known_index.h')],
     F_TECH, 'proof', F_NOTE + ' The random transfer is replaced by its contract (O01).',
     observe=['SPFSSKnownIndex::RunValueProvider*', 'SPFSSKnownIndex::RunIndexProvider*'])
prop('O01', 'All-but-one random OT: both parties hold the same values except at the index',
     'For every batch of vector lengths and indices, after RunSender/RunReceiver (single or batched) the sender has written a leaf of a fresh tree '
     'to every element of its outputs and the receiver\'s elements equal the sender\'s at every position except its index; both roles send, receive '
     'and flush matching messages and run exactly the same number of transfers; the sender rejects moduli for which the leaves cannot be reduced '
     'with the required statistical security, and the receiver rejects mismatched sizes and indices out of range, before communicating.',
     ['inputs', 'configurations'], 'all batch sizes, lengths, indices and six scalar types',
     'Tests run a few batch shapes; a wrong offset into the batched transfers shows only for particular combinations of lengths, and a lost error '
     'only for batches with an invalid element or more than 2^31 leaves in total.',
     ['all_but_one_random_ot.h', 'ggm_tree.cpp'],
     [('SendTrees', 'all_but_one_random_ot.h'), ('ReceiveTrees', 'all_but_one_random_ot.h')],
     F_TECH, 'proof', F_NOTE + ' Tree reconstruction is replaced by its contract (T04); the OT library by its functionality.',
     observe=['AllButOneRandomOT::SendTrees', 'ReceiveTrees', 'RunSender*', 'RunReceiver*'])
prop('O02', 'All-but-one random OT reveals only sibling sums and never the punctured path',
     'SendTrees draws every tree seed and every key freshly from the cryptographic generator for its whole size, and transmits nothing but the keys and, through '
     'oblivious transfer, the sibling-wise sums of the trees; the receiver asks for exactly the sums that complement the bits of its index, so '
     'the value at the index stays hidden and the index is used in nothing else it sends.',
     ['inputs', 'configurations'], 'all batch sizes, lengths, indices and scalar types',
     'Secrecy cannot be observed by a functional test: a constant seed, a swapped choice or an extra transmitted block leaves every output correct.',
     ['all_but_one_random_ot.h'], [('SendTrees', 'all_but_one_random_ot.h'), ('ReceiveTrees', 'all_but_one_random_ot.h')],
     'provenance of every transmitted and secret value in closed-form summaries of both roles', 'proof', F_NOTE,
     observe=['AllButOneRandomOT::SendTrees', 'ReceiveTrees'])
prop('L01', 'Gilboa scalar-vector product: the shares add up to y times x',
     'For every scalar y and vector x of the same scalar type, the results of RunVectorProvider and RunValueProvider add up, element by element, to '
     'y*x; both roles run the same transfers (number, kind, choice type and packing), reject the same arguments and scalar types that do not fit a '
     'block before communicating, and report every error of a transfer.',
     ['inputs', 'configurations'], 'all scalars, vectors, lengths and six scalar types (every width of the modular ones)',
     'Tests multiply random vectors of a few lengths; a mistake in one bit position, in the last partially filled block or for a modulus whose '
     'size is not a divisor of a block shows only for particular values and widths.',
     ['scalar_vector_gilboa_product.h'],
     [('RunValueProvider', 'scalar_vector_gilboa_product.h'), ('RunVectorProvider', 'scalar_vector_gilboa_product.h')],
     F_TECH, 'proof', F_NOTE + ' Packing is replaced by its contract (P01); the transfer library by its functionality.',
     observe=['ScalarVectorGilboaProduct::RunVectorProvider', 'RunValueProvider'])
prop('L02', 'Gilboa scalar-vector product: every transmitted value is masked',
     'The scalar enters only the choice bits of the transfers and the vector enters only their messages, every one masked by a fresh uniform value '
     'of its own; correlated transfers whose random values are hashed into the scalar type are used only when the guard says the result is '
     'statistically close to uniform for the whole batch, and nothing else is sent.',
     ['inputs', 'configurations'], 'all scalars, vectors, lengths and scalar types',
     'Secrecy cannot be observed by a functional test: a reused or missing mask leaves every output correct.',
     ['scalar_vector_gilboa_product.h'],
     [('RunValueProvider', 'scalar_vector_gilboa_product.h'), ('RunVectorProvider', 'scalar_vector_gilboa_product.h')],
     'provenance of every transmitted value and mask in closed-form summaries of both roles', 'proof', F_NOTE,
     observe=['ScalarVectorGilboaProduct::RunVectorProvider', 'RunValueProvider'])
prop('M01', 'MPFSS from a vector OLE: shares of x*y at the indices, zero elsewhere',
     'RunValueProviderVectorOLE and RunIndexProviderVectorOLE accept exactly consistent sizes and in-range indices (repeated ones are refused when hashing gives up) and reject everything '
     'else before communicating; the only message is the permuted y masked with u; per bucket the shares add up to x times the element of y '
     'placed there; both roles run one single-point instance per bucket, of the bucket\'s length, at the position of the placed index, and every '
     'output element is the sum of its elements of all buckets, overwriting what the caller passed.',
     ['inputs', 'configurations'], 'all index sets, values, output sizes below 2^31 and six scalar types',
     'Tests use random index sets of a few sizes; an index on the boundary, an empty bucket or a stale output buffer is not among them.',
     ['mpfss_known_indices.h'],
     [('RunValueProviderVectorOLE', 'mpfss_known_indices.h'), ('RunIndexProviderVectorOLE', 'mpfss_known_indices.h')],
     F_TECH, 'proof', F_NOTE + ' Cuckoo hashing and the single-point scheme are replaced by their contracts (C01-C03, F01).',
     observe=['MPFSSKnownIndices::RunValueProviderVectorOLE', 'RunIndexProviderVectorOLE'])
prop('M02', 'MPFSS bucket cache always belongs to the requested sizes',
     'After any history of runs, UpdateBuckets leaves exactly the simple hashing of [0, output_size) into the number of buckets for num_indices, and '
     'whenever it fails it leaves nothing that a later call could mistake for valid buckets; NumBuckets announces the number used.',
     ['inputs', 'histories'], 'all sequences of sizes, including failing ones',
     'A test runs a handful of sizes on fresh objects; a stale cache needs two runs that differ in only one of the sizes, or a failure in between.',
     ['mpfss_known_indices.cpp'], [('UpdateBuckets', 'mpfss_known_indices.cpp'), ('NumBuckets', 'mpfss_known_indices.h')],
     'effect summary of UpdateBuckets from an arbitrary cached state: inductive invariant relating the cached sizes and the stored buckets',
     'proof', F_NOTE, observe=['MPFSSKnownIndices::UpdateBuckets', 'MPFSSKnownIndices::NumBuckets'])
C_NOTE = ('Read from the typed syntax tree for element types int, int64_t, uint64_t and uint128; AES_encrypt is an uninterpreted block cipher and std::log2 '
          'an exact function. Dynamic accesses inside std containers follow their documented contracts.')
prop('C01', 'Cuckoo hash functions are a fixed keyed family with values in the bucket range',
     'Create accepts exactly positive numbers of hash functions and keys AES with the whole seed; Hash refuses exactly non-positive bucket counts and '
     'returns, per input, one bucket per hash function: the AES Matyas-Meyer-Oseas hash of the input, re-hashed with the function number for all but '
     'the first, modulo the number of buckets, so that both parties and both hashing methods agree and every value is a valid bucket.',
     ['inputs', 'configurations'], 'all seeds, inputs of four integer types, bucket counts and numbers of hash functions',
     'Tests compare a few random inputs; a function number that is lost, or a reduction that only agrees for small values, needs specific inputs.',
     ['cuckoo_hasher.h', 'cuckoo_hasher.cpp'], [('CuckooHasher::Hash', 'cuckoo_hasher.h'), ('HashToBucket', 'cuckoo_hasher.cpp')],
     'closed-form summaries of Create and Hash from the typed syntax tree, compared by ring normal form', 'proof', C_NOTE,
     observe=['CuckooHasher::Create', 'CuckooHasher::Hash'])
prop('C02', 'Simple hashing lists every input in input order for any number of threads',
     'HashSimple refuses exactly bucket counts that are not positive or sizes that would need more than 128-bit hashes; otherwise bucket p holds, in '
     'ascending order of inputs, each input once per hash function that maps it to p, whatever the number of OpenMP threads.',
     ['inputs', 'schedules'], 'all inputs, sizes, hash functions and numbers of threads',
     'The order of a parallel merge only shows on machines and inputs where more than one thread has work; both parties must still agree on it.',
     ['cuckoo_hasher.h'], [('CuckooHasher::HashSimple', 'cuckoo_hasher.h')],
     'append-log summary of the sequential reading compared by normal form, plus a homomorphism rule on the OpenMP constructs: contiguous ascending '
     'chunks, thread-private append-only lists, ordered merge in thread order', 'proof', C_NOTE,
     observe=['CuckooHasher::HashSimple'])
prop('C03', 'Cuckoo hashing places every input exactly once in one of its own buckets',
     'HashCuckoo refuses exactly one hash function, no buckets, more inputs than buckets, or sizes beyond 128-bit hashes; otherwise it either reports an '
     'error after exhausting its evictions or returns a table in which every input occurs exactly once, in a bucket one of its hash functions selects, '
     'and every other bucket is -1. Leaving the insertion early is never a success.',
     ['inputs', 'histories'], 'all inputs, bucket counts and eviction sequences',
     'Long eviction chains are rare on random inputs, and a lost element needs a particular chain.',
     ['cuckoo_hasher.h'], [('CuckooHasher::HashCuckoo', 'cuckoo_hasher.h')],
     'inductive invariant (partial injection plus the element in hand) over the loop summary of HashCuckoo, from the typed syntax tree', 'proof', C_NOTE,
     observe=['CuckooHasher::HashCuckoo'])
prop('C04', 'The number of cuckoo buckets follows the published failure bound',
     'GetOptimalNumberOfBuckets succeeds exactly for non-negative sizes with two or three hash functions (or no inputs, which get one bucket); with three it '
     'returns the rounded-up size times the published expansion factor for the configured statistical security, with two the smallest integer '
     'expansion factor whose published bound reaches it.',
     ['inputs', 'configurations'], 'all sizes, statistical security parameters and numbers of hash functions',
     'A wrong constant changes the failure probability, not the result of a run; tests cannot measure 2^-40.',
     ['cuckoo_hasher.cpp'], [('GetOptimalNumberOfBuckets', 'cuckoo_hasher.cpp')],
     'closed-form summary from the typed syntax tree compared by normal form over the reals', 'proof',
     C_NOTE + ' Floating-point rounding is ignored: the formula is compared over the reals. Termination of the search loop is not claimed.',
     observe=['CuckooHasher::GetOptimalNumberOfBuckets'])
prop('R01', 'Parallel loops are race-free and give the sequential result',
     'In every OpenMP region, for any number of threads and any schedule, no two iterations write the same element, no iteration reads an element '
     'another one writes, replicated code writes nothing shared, locked variables are never touched without the lock, and nothing is sent, received or '
     'drawn from a shared generator inside a parallel loop, so results and message order equal those of one thread.',
     ['schedules', 'inputs'], 'all numbers of threads, schedules and sizes, for every scalar type',
     'Races need a particular interleaving on a machine with enough threads; the suite runs each protocol once on whatever is available.',
     ['all_but_one_random_ot.h', 'all_but_one_random_ot.cpp', 'spfss_known_index.h', 'mpfss_known_indices.h', 'cuckoo_hasher.h', 'distributed_vector_ole.h'],
     [('SendTrees', 'all_but_one_random_ot.h'), ('ReceiveTrees', 'all_but_one_random_ot.cpp'), ('RunValueProviderBatched', 'spfss_known_index.h'),
      ('RunIndexProviderVectorOLE', 'mpfss_known_indices.h')],
     'dependence analysis of every worksharing loop: one symbolic iteration with callees inlined, element indices shown injective in the iteration number',
     'proof', 'The one region whose threads carry lists from iteration to iteration (HashSimple) is decided by C02. Distinct container elements are distinct '
     'locations; output spans given by the caller must not overlap.',
     observe=['every #pragma omp region'])
prop('N02', 'Every thread computes modulo the caller\'s modulus',
     'NTL keeps the modulus per thread: every parallel region that computes with residues first restores, in each of its threads, a context that was '
     'saved by the calling thread, and DistributedVectorOLE::Create does so for the whole thread pool.',
     ['schedules', 'configurations'], 'all parallel regions reached with ZZ_p and zz_p',
     'With one thread, or after some earlier region happened to install the same modulus, a missing restore changes nothing.',
     ['all_but_one_random_ot.h', 'spfss_known_index.h', 'mpfss_known_indices.h', 'distributed_vector_ole.h'],
     [('RunSenderBatched', 'all_but_one_random_ot.h'), ('RunValueProviderBatched', 'spfss_known_index.h'), ('DistributedVectorOLE::Create', 'distributed_vector_ole.h')],
     'effect analysis of parallel regions: uses of the thread-local modulus must be dominated by restoring a context saved before the region', 'proof',
     'A user who raises the number of threads after Create is outside the claim (the code says so). Code not reached with the NTL types is not concerned.',
     observe=['NTLContext save/restore'])
prop('V01', 'Generated vectors satisfy the vector OLE correlation w = u*delta + v',
     'After mirrored calls of Precompute/Run by a sender and a receiver object, for any sequence of sizes with any remainder kept in the caches, the sender\'s '
     'u, v and the receiver\'s w have the requested length and w[i] = u[i]*delta + v[i] for the receiver\'s delta, one delta for the life of the object; each '
     'expansion step, the bootstrapping from Gilboa products and the slicing between seed, output and cache preserve the correlation, and both parties '
     'stay on the same row of the parameter table and the same remainder. The first seed is random in every element, and every expansion draws fresh '
     'cryptographic noise: as many distinct positions as declared, anywhere in the output, with fresh random values.',
     ['inputs', 'histories', 'configurations'], 'all sizes, call histories and random choices, all six scalar types',
     'The loop boundaries (exactly one batch, one more than a batch, remainder across calls, nested bootstrapping) depend on call histories and sizes of more '
     'than a hundred thousand elements that a test samples sparsely.',
     ['distributed_vector_ole.h'], [('ExpandSender', 'distributed_vector_ole.h'), ('RunSender', 'distributed_vector_ole.h'),
                                    ('PrecomputeSender', 'distributed_vector_ole.h'), ('PrecomputeReceiver', 'distributed_vector_ole.h')],
     'symbolic summaries of the sender and receiver methods from the typed syntax tree; product induction over the expansion loops; sub-protocols replaced by '
     'the contracts decided by M01 and L01; ring normal form', 'proof',
     'Assumes both parties call mirrored sequences, equal batch sizes, equal success of sub-protocols, and at a parameter row with n noise positions between n '
     'and 3n buckets. The code matrix is decided only up to being the same for both (V03).',
     observe=['DistributedVectorOLE::RunSender', 'DistributedVectorOLE::RunReceiver'])
V_NOTE = 'Sub-protocols are replaced by their contracts (M01, L01, M02, L02). Trusted: the exported syntax tree, the library models and the term algebra of astp/.'
V_TECH = 'effect summaries of the success and failure paths of the generator\'s methods, computed from the typed syntax tree for each role and scalar type'
prop('V02', 'The generator refuses bad sizes and never passes a failure on as a result',
     'Precompute refuses a batch below one element and Run a negative size with an error, before sending or receiving anything and leaving the object as '
     'it was. If any step of a precomputation fails, the error is returned and Run refuses to work until a later Precompute succeeds; if an expansion fails '
     'during Run, the error is returned and nothing from the failed expansion is ever handed out.',
     ['faults', 'inputs', 'histories'], 'every failing step, all sizes, both roles, all six scalar types',
     'No test makes a sub-protocol fail; a swallowed error yields a vector of zeros that looks like a result.',
     ['distributed_vector_ole.h'], [('RunSender', 'distributed_vector_ole.h'), ('ExpandReceiver', 'distributed_vector_ole.h'),
                                    ('PrecomputeReceiver', 'distributed_vector_ole.h')], V_TECH, 'proof', V_NOTE,
     observe=['DistributedVectorOLE::PrecomputeSender', 'DistributedVectorOLE::RunReceiver'])
prop('V03', 'Both parties derive the same well-formed code generator matrix',
     'PrecomputeCommon makes both parties seed the code generator with the same 32 bytes of fresh cryptographic randomness, sent by one and received by the '
     'other, and draw from it alike, so both hold the same matrix: one row per seed element, one column per output element, every column with exactly the '
     'declared number of entries at rows in range, every entry drawn from its own words of the generator. The noise positions are hashed into buckets for '
     'the same universe and count at both parties.',
     ['inputs', 'configurations'], 'all table rows, both roles, all six scalar types',
     'The test runs both parties in one binary with sizes that use the first table row; a row index off by one, a reused word or a half-filled seed does not '
     'disturb the correlation, or only for other sizes.',
     ['distributed_vector_ole.h'], [('PrecomputeCommon', 'distributed_vector_ole.h')],
     'closed-form summaries of PrecomputeCommon for both roles, composed over the exchanged seed; positions of the generator\'s words shown injective', 'proof', V_NOTE,
     observe=['DistributedVectorOLE::PrecomputeCommon'])
prop('V04', 'The parameter table is no weaker than the published parameters',
     'Every row of the generator\'s parameter table (output, seed and noise sizes) is dominated by a row of the table the project publishes: no larger output '
     'from no smaller seed and no fewer noise positions; rows are ordered, make progress, and the code has at least ten non-zero entries per column.',
     ['configurations'], 'every row of the table', 'Correctness tests pass with any parameters; with less noise the construction is merely insecure.',
     ['distributed_vector_ole.h', 'distributed_vector_ole.cpp'], [('VOLEParameters', 'distributed_vector_ole.cpp')],
     'constant evaluation of the tables in the typed syntax tree, compared row by row with the pinned table', 'other',
     'Compares with the table of the pinned release; says nothing about the hardness of the assumption itself.',
     observe=['VOLEParameters'])
prop('V05', 'No generated element is handed out twice or reused as seed',
     'Every element the generator makes is used at most once: elements returned by one Run never return from a later one, elements kept as the seed of the '
     'next expansion are never returned, and no two positions of a result, the seed and the cache hold the same element, for every history of sizes.',
     ['histories', 'inputs'], 'all sizes and call histories, both roles, all six scalar types',
     'Reused elements still satisfy the correlation, so no correctness test can notice; it takes particular remainders across calls.',
     ['distributed_vector_ole.h'], [('ExpandSender', 'distributed_vector_ole.h'), ('ExpandReceiver', 'distributed_vector_ole.h'), ('RunSender', 'distributed_vector_ole.h')],
     'origin analysis of every element in closed-form summaries of Expand, Run and Precompute; injectivity of position maps', 'proof', V_NOTE,
     observe=['DistributedVectorOLE::RunSender', 'DistributedVectorOLE::RunReceiver'])
prop('E01', 'Refused calls report invalid arguments, and exhausted hashing as internal',
     'Every public operation that refuses its arguments says so with the code InvalidArgument: short seeds, non-positive numbers of hash functions or buckets, '
     'too many inputs or hash bits, negative sizes and batch sizes below one, sizes that do not match, indices out of range, and scalar types too coarse for the '
     'statistical security. Cuckoo hashing that runs out of evictions is an Internal error; the multi-point FSS recognises exactly that error and turns it into '
     'InvalidArgument when the indices repeat, and passes it on unchanged when they are distinct.',
     ['inputs'], 'all rejected arguments of the seven protocol classes', 'Tests check the code for a few calls; the repeated-index path needs hashing to fail, '
     'and depends on an error message of another class.',
     ['mpfss_known_indices.h', 'cuckoo_hasher.h', 'all_but_one_random_ot.h', 'spfss_known_index.h', 'scalar_vector_gilboa_product.h', 'distributed_vector_ole.h'],
     [('RunIndexProviderVectorOLE', 'mpfss_known_indices.h'), ('HashCuckoo', 'cuckoo_hasher.h'), ('RunReceiverBatched', 'all_but_one_random_ot.h')],
     'closed-form summaries of every refusing entry point; the status code of each outcome compared under each refusal condition, the hasher\'s error matched with the '
     'conditions that test for it', 'proof', 'Codes of Create functions with null channels are decided by X01, those of the trees by T01 and T03. ' + V_NOTE,
     observe=['MPFSSKnownIndices::RunIndexProviderVectorOLE', 'CuckooHasher::HashCuckoo'])
prop('X01', 'Setup splits the security budget and agrees on one fresh hashing seed',
     'Creating any protocol object from a channel and a statistical security parameter s >= 0 succeeds exactly when the transport adapter can be set up; a '
     'null channel or a negative s is an invalid argument and rejected before any communication. The failure probabilities granted to the parts of the object '
     'add up to at most 2^-s. All traffic goes over the given channel, and a measured channel is not bypassed. Both parties of a multi-point FSS hash with the '
     'same 128-bit seed, drawn at random anew by the party with the lower id, and with three hash functions. New objects have nothing cached or precomputed, '
     'and PrecomputeReceiver without a delta draws a fresh random one.',
     ['inputs', 'configurations'], 'all channels, party ids, security parameters and all six scalar types',
     'Tests use one security parameter and cannot see a failure probability of 2^-38 in place of 2^-40, a seed with fewer random bits or a fixed delta.',
     ['all_but_one_random_ot.cpp', 'spfss_known_index.cpp', 'mpfss_known_indices.cpp', 'scalar_vector_gilboa_product.cpp', 'distributed_vector_ole.h'],
     [('Create', 'mpfss_known_indices.cpp'), ('Create', 'all_but_one_random_ot.cpp'), ('Create', 'scalar_vector_gilboa_product.cpp'),
      ('Create', 'spfss_known_index.cpp'), ('Create / PrecomputeReceiver', 'distributed_vector_ole.h')],
     'closed-form summaries of every Create function from the typed syntax tree, for each order of the party ids; linear evaluation of the security parameters', 'proof',
     'Whether a part uses its parameter correctly is decided by O02, L02, C04 and V03. ' + V_NOTE, observe=['Create', 'DistributedVectorOLE::PrecomputeReceiver'])
