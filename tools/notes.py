NOT_YET = {}
T = 'model checking: explicit-state exploration of the real code in lockstep with an exact reference model'
TR = T + ', the random source owned and enumerated'
NOTES = {
 'C01': (T, 'Complete transition relation (every pair of values, every operation, fixpoint) for LOGQ<=8; all pairs of structured operands (powers of two, runs of ones, sign and limb boundaries, limb patterns) for every LOGQ 1..200 and selected sizes to 3051; all carry windows; operation sequences breadth-first; reference is boost cpp_int.'),
 'C02': (T, 'Every value for every precision pair up to 10x10 bits; structured values (rounding and sign boundaries, runs of ones) for every distance 0..192 across limb boundaries and selected wide pairs; output buffer pre-filled both ways; polynomial and ciphertext forms. Reference cpp_int.'),
 'C03': (T, 'Every value for small LOGQ; boundaries of decimal digits, powers of ten, limbs and double rounding for selected LOGQ to 1300; parse with leading zeros and maximal strings; printed forms captured from stdout.'),
 'C04': (T, 'Complete for q<=64 and all operands below 3q+2, all triples of boundary words, every exponent to a bound plus boundary exponents, every residue inverse for small primes.'),
 'C05': (T, 'For N=2..16 every vector over a boundary word alphabet up to a budget and complete small fields; unit vectors and dense vectors to N=2^17; many primes per N; interleaved instances. Linear map is checked on a full basis, products against schoolbook.'),
 'C06': (T, 'Complete residue boxes and complete rings for small primes and LOGQ, boundary residues and values for 1..96 60-bit primes; all LOGQ boundary classes.'),
 'C07': (T, 'Every pair of polynomials for tiny rings; extreme, unit and dense polynomials for LOGQ 1..3051 at N=2..64 and the largest sizes at N up to 2^17 (thorough); ternary, small-integer and ciphertext forms; aliased outputs.'),
 'C08': (TR, 'All answer sequences of the random source up to a depth for small N, exact probabilities of every reachable key, the alphabet checked to be exact for the code, boundary answers at every call for N to 2^16, constant and stuck-then-free sources.'),
 'C09': (TR, 'Every call of the random source overridden with extreme answers; all keys and extreme/dense messages; every ciphertext pair of tiny rings; all operation sequences to a depth, decrypted and compared with the same operations on the decryptions.'),
 'C10': (TR, 'Every single-bit flip of every random answer from several base streams: GF(2) rank of the mask must be full, mask and noise answers disjoint, noise values enumerated over every residue of the answer; independence and freshness by dependence sets. Uniformity is decided for sources under which the mask is affine in the answers, which holds for this code.'),
 'C11': (TR, 'All ternary (s,t) pairs at N=2, extreme/dense source polynomials and ciphertexts at N to 2^12, precisions 2..725 across limb boundaries, extreme noise streams; the key is decrypted with the reference and its noise bounded.'),
 'C12': (TR, 'Complete tiny rings, ciphertext boundary grids for all nine keys at N=2, basis/extreme quadruples to N=64, larger sizes with structured operands; long multiplication chains; squares and swapped factors.'),
 'C13': (T, 'All precision pairs to 14x14, every distance 1..160, wide pairs to 3051 bits; complete rings for small widths; chains against single steps; all ternary keys at N=2.'),
 'C14': (TR, 'All rotation amounts 0..N+1 for N=8..2048, hundreds to N=131072, compositions, every key form; slot permutation checked with a long-double embedding; ciphertexts for boundary precisions and all keys.'),
 'C15': (T, 'Linear maps decided on the full basis in both directions for LOGN=2..10 (strided above), all ternary vectors for N=4,8, scales 1e-200..1e200, interleaved sizes; sparse factors multiplied out.'),
 'C16': (T, 'Coefficients at every power of two and around every limb boundary for every LOGQ class, all one-slot messages and dense ones at scales 2^0..2^(LOGQ-2); reference rounding in long double with tie tolerance.'),
 'C17': (T, 'All offset sets and all empty markings for small N, every ordered pair of sets for products, operation sequences breadth-first over the reachable (offset, empty) states; messages and dense products by basis.'),
 'C18': (TR, 'All (or strided) offset sets x all empty markings x five matrix patterns at small N, three homomorphic forms, dense form on unit matrices, series of up to 12 matrices grouped by 1..4, scales 2^32..2^63; tolerance derived from key-switching bounds.'),
 'C19': (TR, 'Every unit coefficient and unit slot plus dense plaintexts for LOGN=2..6 and every admissible grouping (strided at 7, LOGN 9 in thorough), all keys, low and high scales; all call sequences to depth 3 over two instances, both operations and two keys, each from a fresh process. Slot tolerance from an error recursion.'),
 'C20': (T, 'Every signed unit coefficient vector and dense ones for all six degrees, slot grid with +-1 and 0, all keys; conversion on every unit vector for lengths 4..256; printed output captured; inputs hashed.'),
 'C21': (T, 'All 47 integer parts x nine residuals (both signs) spread over the slots, both entry points, N=2..16 at three to five scales, all keys; tolerance: cubic-arcsine error plus propagated key-switching noise.'),
 'C22': (TR, 'Both pipelines for LOGN=2..5, groupings 1..3, small and large CoeffToSlot scales, two base moduli, unit/dense messages, structured masks that drive the multiple of q to its extremes, every key; every coefficient compared with the decryption of the input.'),
 'C23': ('model checking: explicit-state exploration of call histories of the real code, each from a fresh process', 'Actions are operation x one-argument-changed variants over reused buffers; the result of every action in a fresh process is the reference. All ordered pairs (triples in thorough) from fresh processes, one long history through all actions and 300 repetitions per family; four families cover arithmetic, scheme, linear transforms and evaluation.'),
 'C24': ('stateless model checking of the real code: controlled scheduler over OpenMP teams, deviation-bounded exhaustive schedules, vector-clock conflict detection on every access', 'The program is built with -fsanitize=thread but linked to an own runtime (rt.cpp) that supplies OpenMP, atomics and guards and runs one thread at a time. Team sizes 2..8, 16, 33, 64 (64 exceeds every trip count, so each iteration is concurrent with every other one: a conflict-free run covers every distribution and, as the regions do not synchronise, every interleaving). Explicit schedules with up to 2 deviations and preemptions at memory accesses are executed too, each in a fork, and every result compared with the one-thread result.'),
 'C25': ('stateless model checking of the real code: controlled scheduler over concurrent callers, deviation-bounded exhaustive schedules from a fresh process, vector-clock conflict detection', 'Same runtime; 2 and 3 caller threads on separate data, all operations with coinciding first uses, equal and different arguments, cold and warm, inner teams of 1 and 2; every pair of different operations, also in opposite orders (lock-order deadlocks); preemptions inside operations. Synchronisation operations (guards, atomics, mutexes, call_once) are decision points.'),
 'C27': (TR, 'All programs of up to 4 of 17 operations (N=4; 3 at N=8 and 16, 2 at N=64 and 512, 1 at N=2048 and 8192; one deeper in the thorough tier) on two ciphertext registers over two to four moduli, two secret keys, every node decoded by the library and compared with complex slot arithmetic within the propagated bounds.'),
 'C26': ('model checking: every operation x variant x size x previous memory content executed on the real code under memory monitors', 'AddressSanitizer and UBSan (with float-cast-overflow) over ten families of operations and sizes, cold and warm; unsanitised builds without automatic initialisation repeat every variant over 8 contents of stack, heap and output buffers and must give one result; every input object compared byte for byte. The thorough tier reruns the harnesses of C01-C22 under the sanitizers.'),
}
