import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
ZQ="include/HEAAN/arith/Z_Q.h"; RQ="include/HEAAN/arith/R_Q.h"; RQ2="include/HEAAN/arith/R_Q_square.h"
CV="include/HEAAN/arith/conv.h"; CV2="include/HEAAN/arith/conv/conv.h"; CRT="include/HEAAN/arith/conv/crt.h"; NTT="include/HEAAN/arith/conv/ntt.h"; MOD="include/HEAAN/arith/conv/mod.h"
CORE="include/HEAAN/core.h"; ED="include/HEAAN/endecode.h"; LT="include/HEAAN/linear_transform.h"; BOOT="include/HEAAN/bootstrap.h"; POLY="include/HEAAN/poly.h"
DFT="include/HEAAN/matrix/DFT.h"; MAT="include/HEAAN/matrix/matrix.h"; MSG="include/impl/message.h"; PT="include/impl/plaintext.h"; SPT="include/impl/simple_plaintext.h"; UT="include/util/util.h"

p("C01","Big-integer ring arithmetic is exact modulo 2^LOGQ",
 "For every precision LOGQ and all operand values, addition, subtraction, negation, multiplication by another element and multiplication by a 64-bit word give exactly the integer result modulo 2^LOGQ, and every result is canonical (no bits at or above LOGQ). The right operand is never changed, and using the same object as both operands (x+=x, x-=x, x*=x) gives the same result as using a copy. The same holds coefficient by coefficient for polynomials and ciphertext pairs under addition, subtraction and word multiplication.",
 ["inputs","histories","configurations"],"every LOGQ, every sequence of ring operations on every operand value, aliased or not",
 "No test calls the ring operations with chosen values; carries, borrows and top-limb masking fail only on specific limb patterns and precisions, which random messages at LOGQ=1450 essentially never produce.",
 [ZQ,RQ,RQ2],[("carry propagation",ZQ+" operator+="),("top-limb masking",ZQ+" remove_clutter"),("two's complement",ZQ+" negate"),("schoolbook limb products",ZQ+" mul, operator*=")],["Z_Q limbs after each operation"])
p("C02","Changing precision rounds, scales and sign-extends exactly",
 "Dropping k low bits gives the integer nearest to x/2^k (ties upward, two's complement) in the smaller ring, raising by k bits multiplies by exactly 2^k, and dropping or raising by zero bits is the identity. Resizing to a wider precision preserves the signed value, and resizing to a narrower one reduces it modulo the new modulus. This holds for every pair of precisions and every value, coefficientwise for polynomials and ciphertexts, and results are canonical.",
 ["inputs","configurations"],"every pair of precisions (all residues mod 64, limb-aligned and not) and every value, including sign boundaries and round-up across limbs",
 "Tests only use a few precision pairs at LOGQ>700 and look at 6 digits of decoded slots, where a rounding or limb-boundary error is invisible.",
 [ZQ,RQ,RQ2,CORE,BOOT],[("round half up",ZQ+" shift_right"),("cross-limb shift",ZQ+" shift_left"),("sign-magnitude transfer",ZQ+" resize"),("modulus raise",BOOT+" mod_raise")],["limbs of the result"])
p("C03","Decimal text, sign and double views agree with the integer",
 "Converting an element to decimal text yields exactly the digits of its unsigned value and parsing decimal digits below 2^LOGQ gives that element back; the printed signed form of a polynomial shows the centered value of every coefficient. The sign predicate is true exactly for values of at least 2^(LOGQ-1), conversion to double is the centered value to within double rounding for every magnitude a double can hold, and the highest-significant-limb query ignores exactly the limbs that only extend the sign.",
 ["inputs","configurations"],"every LOGQ up to 1300 and every value",
 "No test reads text or checks signs at the boundary; the double view is only compared for values below 2^64.",
 [ZQ,RQ,RQ2],[("radix conversion",ZQ+" fr_str/to_str"),("sign bit",ZQ+" is_bigger_than_halfQ"),("double view",ZQ+" operator double"),("significant limb",ZQ+" max_valid_digit"),("printing",RQ+" print_unsigned/print_signed")],["returned text, bool, double, int; stdout"])
p("C04","Word-size modular arithmetic is exact for every operand",
 "For every modulus q and all 64-bit operands, reduced or not, modular addition, subtraction, multiplication and two-word reduction return the true residue in [0,q); the full 64x64 product is exact in both halves. Modular powers are exact for every exponent, and the inverse of any nonzero residue modulo a prime times that residue is one.",
 ["inputs"],"all 64-bit a, b, exponents and moduli (two-word reduction: high word below q)",
 "mod_test and mul_test evaluate one fixed operand tuple each; carry out of a+b, b>q, or high-bit moduli are never reached.",
 [MOD,ZQ],[("128-bit reduction",MOD+" mod"),("carry-aware add",MOD+" add_mod/sub_mod"),("square and multiply",MOD+" pow_mod/inv_mod"),("split product",ZQ+" mul"),("wide product",MOD+" mul_")],["return values"])
p("C05","Number-theoretic transform inverts and turns products into X^N+1 products",
 "For every power-of-two length N of at least 2 and prime q = 1 mod 2N, the inverse transform of the forward transform is the original vector reduced modulo q, the forward transform of the inverse is too, and the inverse transform of a pointwise product of transforms is the negacyclic convolution modulo q. Inputs need not be reduced (a residue may be given as any 64-bit word), outputs always are, and transforming one vector never affects another.",
 ["inputs","configurations"],"every N, every supported prime and every input vector",
 "ntt_test round-trips one vector (0,1,2,...) at one N and one prime and prints only ten elements; a wrong twiddle that cancels between forward and inverse passes.",
 [NTT,MOD,UT],[("Cooley-Tukey butterflies",NTT+" ntt"),("Gentleman-Sande butterflies",NTT+" intt"),("twiddle tables in bit-reversed order",NTT+" NTT::NTT"),("primitive root search",NTT+" findPrimitiveRoot"),("bit reversal",UT+" bitReverse")],["transformed arrays"])
p("C06","Residue (CRT) conversion is a bijection on centered integers",
 "Splitting an element into residues gives, for every modulus, the canonical residue in [0,q) of its centered (signed) value; recombining any residue tuple gives the unique centered integer with these residues reduced modulo 2^LOGQ. Hence recombining the residues of x gives x whenever |x| is below half the product of the moduli, for any set of distinct odd primes, any LOGQ, and residue words that are not reduced.",
 ["inputs","configurations"],"every set of distinct primes, every LOGQ (one limb or many, smaller or larger than the product) and every value",
 "crt_test uses one positive value with five fixed primes; negative values, single-limb precisions, multiples of a modulus and the half-way boundary are never tried.",
 [CRT,MOD,ZQ],[("Horner reduction of limbs with sign",CRT+" icrt"),("Garner-free sum with final subtraction and centering",CRT+" crt"),("precomputed cofactors",CRT+" CRT::CRT")],["residues and recombined limbs"])
p("C07","Polynomial multiplication is exact negacyclic convolution",
 "Multiplying two polynomials gives exactly their product in Z[X]/(X^N+1) with every coefficient reduced modulo 2^LOGQ, for every precision up to 3051 bits, every power-of-two N from 2 to 2^17 and all coefficient values including the extremes of the centered range. Multiplying by a ternary key polynomial, multiplying two small-integer polynomials, and multiplying a ciphertext pair by a plaintext polynomial agree with the same definition; squaring (equal operands) and writing the product over an operand of the general product are exact too.",
 ["inputs","configurations"],"every LOGQ<=3051, N=2..2^17, all coefficient vectors",
 "conv_test and ctxt_conv_test compare six decoded digits of random small plaintexts at one size; the number of auxiliary primes only becomes insufficient, and signs only matter, at extreme coefficients and particular precisions.",
 [CV,CV2,CRT,NTT,RQ2],[("prime-count formula and prime table",CV+" conv"),("RNS-NTT product",CV2+" CONV::conv"),("ternary convolution",CV+" conv(int[],R_Q)"),("integer convolution",CV+" conv(int[],int[])"),("pair times polynomial",RQ2+" operator*=")],["coefficients of the product"])
p("C08","Key generation yields a ternary key of exactly the requested weight",
 "Whatever the random source returns, a generated secret key has exactly h nonzero coefficients (0<=h<=N), all of them +1 or -1, and every other coefficient zero even if the array held other data before. Every position set and every sign pattern is reachable, all with equal probability under an ideal source, and generation terminates under every source that eventually names a free position.",
 ["inputs","histories","configurations"],"all outcomes of the random source, all h from 0 to N",
 "Tests never inspect a key; they use one unseeded stream and one weight, and a key of the wrong weight or with biased signs still encrypts and decrypts.",
 [CORE],[("rejection sampling",CORE+" keygen")],["the key array"],[dict(name="rand()",meaning="environment answers chosen by the explorer",where=CORE)])
p("C09","Encryption then decryption returns the message within 8 per coefficient",
 "For every precision, ternary key, message polynomial and every outcome of the random source, decrypting an encryption differs from the message by at most 8 in each coefficient modulo 2^LOGQ, and decryption of any ciphertext is exactly its first part plus key times second part. Adding, subtracting and word-multiplying ciphertexts in any sequence decrypts to exactly the same operations on the decryptions.",
 ["inputs","histories","configurations"],"all messages, keys, random outcomes and sequences of linear operations",
 "Tests use one key and one unseeded random stream at LOGQ=1450 and compare six digits of ten slots at scale 2^50, where an error of thousands in a coefficient, or one confined to other slots, is invisible.",
 [CORE,RQ,RQ2,CV],[("masking",CORE+" enc"),("linear decryption",CORE+" dec"),("ternary convolution",CV)],["ciphertext and decrypted coefficients"])
p("C10","Encryption and switching keys are masked with fresh full-range randomness",
 "The mask polynomial of every encryption is uniform over all N*LOGQ bits when the random source is ideal, never depends on the message or the key, and is drawn anew for every encryption; the noise added to each coefficient is drawn independently, with every value from -8 to 8 possible and no other. The same holds for the encryptions that make up switching keys.",
 ["inputs","histories"],"all outcomes of the random source, messages, keys, and repeated encryptions",
 "Decryption works whatever the mask and noise are, so every test passes with a constant mask, no noise, or reused randomness.",
 [CORE,UT],[("full-range mask words",UT+" rand_uint64"),("per-limb mask and masking to LOGQ",CORE+" enc"),("noise sampling",CORE+" enc"),("switching keys use encryption",CORE+" swkgen")],["ciphertext parts as a function of the random source"],[dict(name="rand()",meaning="environment answers chosen by the explorer",where=CORE)])
p("C11","Key switching preserves the plaintext within its noise bound",
 "A switching key from s to t is an encryption under t, at doubled precision, of 2^LOGQ times s with noise at most 8, for any small-integer source polynomial s. After switching, decryption under t differs from decryption under s by at most 8N + (1+weight(t))/2 in every coefficient, for every ciphertext, key pair, precision and random outcome.",
 ["inputs","configurations"],"all ciphertexts (all coefficient values), key pairs including non-ternary source polynomials, precisions and random outcomes",
 "Only exercised inside rotations with one key at one precision; loss of a limb, wrong lifting of large coefficients or of |s|>1 entries shows only for particular values and sizes.",
 [CORE,ZQ],[("gadget P*s",CORE+" swkgen"),("lift, multiply, rescale, add",CORE+" ks"),("rescale",CORE+" RS")],["decryptions before and after"])
p("C12","Homomorphic multiplication decrypts to the product within its noise bound",
 "For any two ciphertexts under one ternary key (also the same ciphertext twice) and an evaluation key for the key's square, the product ciphertext decrypts to the negacyclic product of the two decryptions modulo 2^LOGQ with error at most 8N + (1+weight)/2 per coefficient. The inputs are left unchanged, the order of the factors does not matter beyond that error, and it holds for every precision and every ciphertext value.",
 ["inputs","configurations"],"all ciphertext pairs, keys, evaluation-key randomness, precisions",
 "ctxt_conv_test squares one random message and compares six digits of ten slots; products of distinct ciphertexts are exercised only deep inside bootstrapping.",
 [CORE,CV,RQ2],[("tensor and relinearise",CORE+" Mul"),("key squaring",CV+" conv(int[],int[])"),("lift of the quadratic part",ZQ+" resize")],["decryption of the product"])
p("C13","Rescaling and modulus raising act on the plaintext as specified",
 "Rescaling a ciphertext by 2^k yields a ciphertext at the smaller modulus decrypting to the old decryption divided by 2^k with error at most (1+weight)/2 per coefficient; rescaling in several steps agrees with one step to within the sum of those bounds. Raising the modulus yields a ciphertext whose decryption is congruent to the old one modulo the old modulus and exceeds it by a multiple of at most (1+weight)/2 of that modulus.",
 ["inputs","configurations"],"all ciphertexts, ternary keys and precision pairs, including chains of rescalings",
 "Tests rescale by multiples of 44..120 bits only and accept errors up to 2^23 in each coefficient.",
 [CORE,BOOT,ZQ],[("componentwise rounding",CORE+" RS"),("centered lift",BOOT+" mod_raise, "+ZQ+" resize")],["decryptions before and after"])
p("C14","Rotation and conjugation are the Galois maps on keys, plaintexts and ciphertexts",
 "Rotating a polynomial by r applies X -> X^(5^r) exactly, so slot i of the result is slot i+r of the input cyclically; conjugation applies X -> X^-1, so every slot is complex-conjugated; keys transform by the same maps, rotations compose additively modulo N/2 and conjugation is an involution. Rotating or conjugating a ciphertext with the matching switching key decrypts to the rotated or conjugated decryption within the key-switching bound, for every r>=0, N, precision and ciphertext.",
 ["inputs","configurations"],"all polynomials, all rotation amounts (also multiples of and beyond N/2), all keys",
 "Only the rotation amounts of two transform layouts at N=512 occur in tests and only in combination; no test compares one rotation with its definition.",
 [LT,SPT,CORE],[("index and sign permutation",LT+" rot/conj"),("ciphertext maps",LT+" rot_ct/conj"),("floating-point twin",SPT+" rotate/rotate_once")],["coefficients, keys, decoded slots"])
p("C15","Fast Fourier transforms equal the canonical embedding and invert each other",
 "For every size, the fast forward transform evaluates the polynomial at the N/2 roots exp(i*pi*5^j/N), the fast inverse is its exact inverse, both agree with the direct formulas, and the variants without bit reversal are the same maps up to bit-reversing the half-vectors, all to within floating-point rounding. The sparse factor matrices multiply to the embedding matrix, and inputs are never modified.",
 ["inputs","configurations","histories"],"all real/complex input vectors and all sizes LOGN>=2",
 "dft_test compares ten elements at N=512 of one message, and only the inverse direction against the definition.",
 [DFT,MAT,UT],[("butterfly factorisation",DFT+" splitU0NR"),("cached factors",DFT+" fftNR/ifftNR"),("bit reversal",DFT+" fft/ifft"),("direct formulas",DFT+" dft/idft")],["output arrays"])
p("C16","Encoding rounds to nearest at the scale and decoding inverts it",
 "Encoding a message at scale Delta gives the integer polynomial whose coefficients are Delta times the inverse embedding, each rounded to the nearest integer, with negative coefficients as canonical two's complement at every precision that holds them; decoding divides the centered coefficients by the scale and embeds them, for coefficients of any size a double can hold, and the logarithmic-scale decoder gives the same for scale 2^k with any k. So decode(encode(z)) returns z within N/(2*Delta) plus rounding, and the floating-point plaintext type agrees with the integer one.",
 ["inputs","configurations"],"all messages, scales, precisions (one limb and many), and all coefficient sizes including exact limb boundaries",
 "Tests encode only at 2^50..2^60 with LOGQ>=60 and compare six printed digits of ten slots; truncation instead of rounding, limb-boundary coefficients and negative zero are invisible there.",
 [ED,PT,SPT,DFT],[("scale and round",ED+" encode"),("limb accumulation",ED+" decode"),("log-scale accumulation",ED+" decode_log"),("wrappers",PT),("floating-point plaintexts",SPT)],["coefficients and slots"])
p("C17","Diagonal-matrix and message algebra matches dense complex algebra",
 "Sparse diagonal matrices represent exactly the dense matrix with the stated diagonals: element access, assignment, addition, subtraction, scaling, negation, transposition, real and complex products, product with a vector and removal of unused diagonals all agree with dense algebra, whatever the offsets (zero, wrapping, repeated in a product) and whichever diagonals are marked empty. A diagonal not marked empty is never dropped and one that received data is never left marked empty. Message addition, subtraction, multiplication, norms, concatenation and diagonal matrix-vector products match their definitions.",
 ["inputs","histories","configurations"],"all offset sets, empty-diagonal markings, sizes and sequences of operations",
 "matmul_test uses the offsets of the transform factors at N=512 and compares groupings with each other only; addition, subtraction and arbitrary offsets are never executed.",
 [MAT,MSG,LT],[("diagonal storage",MAT+" SparseDiagonal"),("product with offset merge",MAT+" MatMul"),("clutter removal",MAT+" RemoveClutter"),("dense product",MAT+" matrix_product"),("dense to diagonals",LT+" mat_to_vecs"),("message operations",MSG)],["matrix elements, vectors, empty markings"])
p("C18","Homomorphic and plaintext linear transforms equal the matrix product",
 "Applying a linear transform to a ciphertext gives a ciphertext whose slots at scale Delta^2 are the matrix times the input slots, up to rounding and key-switching noise; this holds for the dense form, the sparse-diagonal form with supplied rotation keys and the one that derives keys, for any offsets including zero and any empty diagonals, and the plaintext transforms agree. Serial application equals the product of the matrices, grouping by 1, 2, 3 or 4 gives the same transform, and inputs are not modified.",
 ["inputs","configurations"],"all matrices (offset sets, empty diagonals), messages, keys, groupings",
 "matmul_test only compares groupings 2 and 4 with each other in ten slots; the dense form and the supplied-key form are never called by any test or program.",
 [LT,PT,MAT,CORE],[("diagonal method",LT+" linear_transform"),("serial and grouped application",LT+" (grouped_)serial_linear_transform"),("plaintext form",PT+" matrix_vector_product")],["decoded slots"])
p("C19","CoeffToSlot and SlotToCoeff move coefficients to slots and back",
 "CoeffToSlot returns two ciphertexts whose slots are real and equal, in bit-reversed order, the lower and upper half of the input plaintext's coefficients, at the scale grown by one factor per matrix applied; SlotToCoeff maps such a pair back to the original plaintext. It holds for every dimension and every admissible grouping, message, key and scale, for repeated calls with different keys and inputs, and in any order of calls.",
 ["inputs","histories","configurations"],"all messages, keys, LOGN, groupings dividing LOGN-1, and call sequences",
 "coeffToSlot_test checks ten slots at LOGN=9, grouping 2, with one key; other groupings and dimensions or a second key in the same process are not reached.",
 [BOOT,DFT,LT],[("cached scaled inverse factors",BOOT+" CoeffToSlot"),("real and imaginary split by conjugation",BOOT+" CoeffToSlot"),("factors in reverse order, upper half times i",BOOT+" SlotToCoeff")],["decoded slots and decrypted coefficients"])
p("C20","Homomorphic polynomial evaluation equals the Chebyshev combination",
 "Evaluating a polynomial of degree 3, 7, 15, 31, 63 or 127 on a ciphertext gives slots equal to the nested Chebyshev combination of the coefficients at the input slots, up to scale rounding, for all coefficients of either sign (below 2^64 at the scale) and all slots in [-1,1], consuming exactly 2, 3, 4, 5, 6 or 7 levels. Converting ordinary Chebyshev coefficients to the nested form preserves the polynomial for every power-of-two length of at least 4. Evaluation prints nothing and does not modify its inputs.",
 ["inputs","configurations"],"all coefficient vectors of either sign, all slots in [-1,1], all keys, all six degrees",
 "Only degree 31 with one fixed coefficient vector runs (inside EvalMod); the other degrees and the basis conversion are not executed by any test.",
 [POLY,CORE],[("baby-step giant-step Chebyshev tree",POLY+" eval_poly_deg*"),("basis conversion",POLY+" convert_frc_tou")],["decoded slots, coefficient arrays, stdout"])
p("C21","EvalMod removes integer multiples from every slot",
 "For slots k+e with integer |k| below the period bound (24) and small |e|, homomorphic modular reduction returns e to within the cubic arcsine and sine-polynomial error, independently in every slot, with the scale unchanged and exactly twelve levels consumed. It holds for negative and positive k and e, for every key and random outcome, and both entry points (keys given or derived) agree.",
 ["inputs","configurations"],"all k in (-24,24), e of either sign, slots, keys, dimensions and scales",
 "evalMod_test has k in 0..23 with one e=0.0001 and looks at the first ten slots only, so negative multiples, negative remainders and k>=10 are never judged.",
 [BOOT,POLY,CORE],[("scaled cosine approximation",BOOT+" EvalMod"),("four double-angle steps",BOOT+" EvalMod"),("arcsine correction",BOOT+" EvalMod")],["decoded slots"])
p("C22","Bootstrapping returns the same message at a higher modulus",
 "Raising the modulus, CoeffToSlot, EvalMod and SlotToCoeff (conventional), or subtracting the homomorphically recovered multiple of the base modulus from the raised ciphertext (EvalRound), yields a ciphertext at a modulus larger than the base whose decryption agrees with the original plaintext to the designed precision, in every coefficient. This holds for every message with slots in the unit disk, key, random outcome and admissible (dimension, scale, grouping) configuration; with a small CoeffToSlot scale the EvalRound result stays precise although its intermediate values do not.",
 ["inputs","configurations"],"all messages, sparse keys, random outcomes and parameter configurations",
 "The tests bootstrap one fixed message at LOGN=9 with grouping 2 and one key.",
 [BOOT,POLY,LT,CORE,"src/test/end_to_end_test.cpp","src/test/bootstrap_test.cpp"],[("mod raise to message plus multiple of q",BOOT+" mod_raise"),("pipeline",BOOT),("qI recovery",PT)],["decrypted coefficients and slots"])
p("C23","Results depend only on arguments, never on call history",
 "Given the same arguments and the same answers from the random source, every operation returns the same result no matter which operations, with which sizes, keys, matrices or data, ran before it in the process, how often it ran, or whether buffers are reused in place with new contents. Cached tables are never modified after their first use and never mixed between sizes, precisions or keys.",
 ["histories"],"all sequences of operations over several sizes, precisions, keys and reused buffers",
 "Each test program calls each operation once or twice with one size, so a cache that is stale, keyed too coarsely or corrupted by a later call is never consulted again.",
 [CV,DFT,BOOT,LT,CORE],[("lazily built multiplier",CV+" conv"),("lazily built FFT factors",DFT+" fftNR/ifftNR"),("lazily built CtS/StC factors",BOOT+" CoeffToSlot/SlotToCoeff")],["results compared with a fresh process"],
 [dict(name="static tables",meaning="built on first use, read-only afterwards",where=CV+", "+DFT+", "+BOOT)])
p("C24","Internal parallelism never changes a result",
 "For every number of worker threads, every distribution of loop iterations over them and every interleaving, each operation returns the same result as with one thread: the parallel loops share no mutable state, so no execution contains two conflicting unordered accesses.",
 ["schedules","configurations"],"all team sizes and all interleavings of the parallel sections",
 "The tests run with one team size under whatever schedule happens; a race that rarely strikes, or strikes only for other team sizes, passes.",
 [CV,CV2],[("iteration-private scratch, disjoint writes",CV2+" CONV::conv, icrt_polynomial, crt_polynomial"),("per-coefficient parallel ternary convolution",CV+" conv(int[],R_Q)")],["results and memory accesses of the parallel sections"])
p("C25","Concurrent callers on separate data get sequential results",
 "When several threads use the library at the same time on their own data, every call returns the same result as when it runs alone, under every interleaving, including when the very first uses of an operation coincide. No call observes a partly built table, builds one twice into the same place, or shares scratch storage with another call.",
 ["schedules"],"all interleavings of two or three threads calling any mix of operations, cold or warm",
 "All tests are single-threaded callers.",
 [CV,DFT,BOOT],[("one-time initialisation",CV+" conv"),("one-time initialisation",DFT+" fftNR/ifftNR"),("one-time initialisation",BOOT+" CoeffToSlot/SlotToCoeff")],["results per thread and conflicting accesses"],
 [dict(name="static tables",meaning="shared by all callers of one instantiation",where=CV+", "+DFT+", "+BOOT)])
p("C26","No operation touches memory outside its operands or depends on stale memory",
 "For every supported size and precision, each operation reads and writes only its operands, its own temporaries and its tables, never writes its inputs, has no undefined arithmetic, and its result does not depend on what uninitialised or previously used memory contained, including the previous contents of the output.",
 ["inputs","configurations","histories"],"all sizes and precisions (limb-aligned and not), all prior memory contents",
 "The tests run without sanitizers at one or two sizes, where an out-of-range limb is in the neighbouring object and stale stack memory is usually zero.",
 [ZQ,RQ,CV2,CRT,CORE,ED,LT,POLY,MAT,DFT],[("limb loops bounded by precision",ZQ),("outputs fully overwritten",CORE+", "+LT+", "+ED),("temporaries initialised",LT+" linear_transform")],["results under different memory fill patterns; sanitizer traps"])
p("C27","Homomorphic programs compute the same program on the slots",
 "For every program composed of encoding, encryption, addition, subtraction, multiplication by small integers, by encoded plaintexts and by ciphertexts, squaring, rotation, conjugation, linear transforms, key switching, rescaling and dropping of levels, decrypting and decoding any intermediate result gives the same program applied to the complex slot vectors, with an error at most the sum of the operations' noise and rounding bounds at the scale, as long as the exact values fit the modulus. Operands and keys used by one step are unchanged and remain usable by later steps, and it holds at every level, dimension, key and random outcome.",
 ["histories","inputs","configurations"],"all sequences of homomorphic operations up to a depth on two registers over a chain of moduli, several dimensions, scales, keys and messages",
 "Each test runs a single fixed operation or the fixed bootstrapping pipeline once; no test feeds the result of an arbitrary operation into every other one or reuses operands afterwards.",
 [CORE,LT,ED,RQ2,CV,PT],[("ciphertext operations",RQ2),("products with key switching",CORE+" Mul, ks, RS"),("rotations and transforms",LT)],["decoded slots of every register after every step","operand and key contents"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
