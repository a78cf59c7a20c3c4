import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({"observe_at":observe} if observe else {}))))
p("C01","Word-level modular reductions return the right residue in the right range",
 "For every odd modulus of at most 61 bits, each word-level modular product, reduction and Montgomery conversion returns a value congruent to the mathematical result (including the 2^64 or 2^-64 factor where one is specified) for every pair of 64-bit operands in its stated domain. The fully reduced variants return a value strictly below the modulus and the constant-time variants one strictly below twice the modulus. Modular exponentiation returns the true power.",
 ["inputs","configurations"],"all 64-bit operands, for each modulus of a list spanning 5 to 61 bits including the ones next to 2^61",
 "unit tests try three moduli with one operand pair each; wrong carries or off-by-one ranges need particular operand words",
 ["ring/modular_reduction.go","ring/utils.go"],[("Barrett and Montgomery reductions","ring/modular_reduction.go"),("modular exponentiation","ring/utils.go")])
p("C02","Coefficient-wise ring operations compute the right residues in the receiver",
 "Every coefficient-wise operation of the polynomial ring (addition, subtraction, negation, reduction, products with their accumulating, subtracting and unreduced variants, scalar and big-integer scalar addition, subtraction and multiplication, power-of-two multiplication, Montgomery conversion) writes to the receiver, for every coefficient and every modulus up to the requested level, a value congruent to the mathematical result, below the modulus when the operation is a reducing one. It leaves operands that are not the receiver and rows above the level untouched, and gives the same result when receiver and operand coincide.",
 ["inputs","configurations"],"all coefficient values in the operation's domain, every level of the chain, receiver distinct from or equal to each operand, moduli of different sizes incl. 61 bits",
 "tests compare a handful of random polynomials and mostly use the receiver as operand; they never reach operands near overflow nor look at the untouched rows",
 ["ring/ring_operations.go","ring/ring_vector_ops.go"],[("8-way unrolled vector kernels","ring/ring_vector_ops.go"),("level loops","ring/ring_operations.go")])
p("C03","The number-theoretic transform is invertible and turns products into convolutions",
 "For both ring types, every variant of the forward and inverse transform is exact: inverse after forward returns the reduced input, and the inverse transform of the coefficient-wise product of two transforms is the product of the two polynomials in the ring. Non-lazy variants return values below the modulus and lazy variants below twice the modulus, for any input below twice the modulus.",
 ["inputs","configurations"],"all coefficient vectors at ring degree 16 (32 thorough), standard and conjugate-invariant rings, every level, moduli up to 61 bits",
 "tests transform a fixed vector or random ones; range overflow inside butterflies depends on extreme coefficient combinations",
 ["ring/ring_ntt.go","ring/ring_ntt_interface.go","ring/ring.go"],[("lazy butterflies","ring/ring_ntt.go"),("root tables","ring/ring.go")])
p("C04","Automorphisms act as X -> X^g in both domains and compose",
 "Applying the automorphism of a Galois element to a polynomial maps X to X^g exactly, in the coefficient domain and in the transformed domain alike, for any level, with or without a precomputed index and with or without accumulation. Galois elements for column rotations compose additively and each has the inverse returned by the inverse lookup.",
 ["inputs","configurations"],"all coefficient values and all odd Galois elements at ring degree 16; all rotation amounts",
 "tests check one Galois element on one polynomial",
 ["ring/ring_automorphism.go","rlwe/params.go"],[("index permutation","ring/ring_automorphism.go"),("Galois element arithmetic","rlwe/params.go")])
p("C05","Monomial products, shifts and rotations move coefficients as specified",
 "Multiplying by a monomial of any degree, cyclically shifting, or rotating the coefficients of a polynomial yields in the receiver exactly the polynomial the operation denotes, for every shift amount, including zero and amounts beyond the ring degree. The operand is unchanged unless it is the receiver, and afterwards the two share no storage.",
 ["inputs","configurations"],"all coefficient values, all shift amounts from 0 to twice the ring degree, aliased and distinct receivers",
 "tests run a couple of shift amounts in place",
 ["ring/ring_operations.go","ring/utils.go"],[("index arithmetic","ring/ring_operations.go")])
p("C06","RNS basis extension and modulus division are exact on integers",
 "Extending a residue representation to further moduli yields the residues of the represented integer (up to one multiple of the source modulus only when the integer lies within a 2^-40 fraction of either end of its range). Dividing a polynomial over two bases by one of them returns, in either domain, the quotient by that basis product up to an additive error of one, the same integer for all remaining moduli; the gadget decomposition returns the residues of the input digit in every modulus.",
 ["inputs","configurations"],"all represented integers at every level pair of chains of up to 4+3 moduli of mixed sizes up to 61 bits",
 "the tests use random small integers on one parameter set; the float quotient estimate and the 128-bit lazy accumulation fail only for particular residues",
 ["ring/ring_basis_extension.go"],[("float-assisted exact CRT","ring/ring_basis_extension.go"),("fused subtract-multiply","ring/ring_vector_ops.go")])
p("C07","Dividing by the last moduli is exact floor or nearest rounding",
 "Dividing a polynomial by the last modulus, or successively by several last moduli, returns for every remaining modulus the residue of the floored, respectively nearest, integer quotient of the represented integer, identically in the coefficient and transformed domains. All results are below their modulus.",
 ["inputs","configurations"],"all represented integers, every level and number of divisions, moduli of equal and of very different sizes",
 "tests sample random polynomials over equally sized moduli and tolerate errors",
 ["ring/ring_scaling.go","ring/ring_vector_ops.go"],[("RNS division","ring/ring_scaling.go")])
p("C08","Scaling by t/Q rounds to nearest modulo t",
 "The residue-domain and the multiprecision scalers both return round(t*x/Q) modulo t, below t, for the integer x represented modulo Q. The residue-domain scaler may return either neighbouring integer only when t*x/Q lies within 2^-40 of a half-integer.",
 ["inputs","configurations"],"all represented integers x below Q for several (Q,t); for the residue-domain scaler x outside a 2^-40 fraction of the rounding boundaries",
 "tests use random coefficients for one t",
 ["ring/ring_scaling.go"],[("t/Q scalers","ring/ring_scaling.go")])
p("C09","Integers and residue vectors convert both ways without loss",
 "Setting polynomial coefficients from machine, string or arbitrary-precision integers stores their canonical residues modulo every modulus, negative values included. Reading the coefficients back returns the unique integer in [0,Q), or for the centred form in (-Q/2,Q/2], at every level.",
 ["inputs","configurations"],"all integers below the modulus product in absolute value, every level, every coefficient gap",
 "tests round-trip random big integers once, never at the ends of the interval",
 ["ring/ring.go","ring/ring_poly.go"],[("CRT reconstruction","ring/ring.go")])
p("C10","Samplers only produce valid polynomials whatever the random bytes",
 "For every stream of random bytes, uniform sampling yields coefficients below their modulus, ternary sampling yields the same element of {-1,0,1} for all moduli (with exactly the requested number of non-zero coefficients when one is requested), and Gaussian sampling yields the same integer, bounded by the requested bound, for all moduli. The accumulating and level-restricted variants add exactly such a polynomial to the receiver and touch no other row.",
 ["inputs","configurations"],"all byte streams up to a bounded number of rejections, every level, both Montgomery settings",
 "tests only look at a few samples of a keyed generator",
 ["ring/ring_sampler_uniform.go","ring/ring_sampler_ternary.go","ring/ring_sampler_gaussian.go"],[("rejection loops","ring/ring_sampler_uniform.go"),("bit-level ternary sampling","ring/ring_sampler_ternary.go"),("ziggurat","ring/ring_sampler_gaussian.go")])
p("C11","Prime generation returns distinct primes of the requested form",
 "Whatever the primality oracle answers, and for root orders dividing the requested power of two, a generated list contains only numbers the oracle accepted, pairwise distinct, congruent to one modulo the requested root order and within the documented distance of the requested size; a next or previous prime lies strictly on the requested side with no accepted candidate skipped, or an error is returned. Moduli outside the representable range are never returned.",
 ["inputs","configurations"],"all answer sequences of the primality oracle up to a bounded number of candidates, several sizes and root orders",
 "tests generate a few concrete primes, so skipped candidates and range ends are never reached",
 ["ring/primes.go"],[("candidate walk","ring/primes.go")])
p("C12","Serialisation round-trips every object and rejects truncated data",
 "Encoding any polynomial, plaintext, ciphertext, secret, public, switching, relinearisation or rotation key and decoding it into a fresh object reproduces every coefficient and flag, with the advertised length. Decoding never depends on the previous content of the receiver's flags, and decoding a truncated encoding returns an error instead of crashing (except that a rotation-key set, a concatenation of entries without a count, cut exactly between two entries decodes as the smaller set).",
 ["inputs","configurations"],"all coefficient values and flags, all shapes up to the bound, every truncation point of the header and payload",
 "tests round-trip random objects in fresh buffers and never truncate",
 ["ring/ring_poly.go","rlwe/marshaler.go","rlwe/elements.go","ckks/ciphertext.go","utils/buffer.go"],[("length-prefixed encodings","rlwe/marshaler.go")])
p("C13","Parameter sets compare, encode and validate faithfully",
 "Two parameter sets are equal exactly when all their components are equal, independently of the order of comparison. Encoding a set in binary or JSON form and decoding it gives an equal set of the same ring type, invalid or truncated encodings give an error, and construction rejects invalid degrees, duplicate or ill-formed moduli.",
 ["inputs","configurations"],"all values of the scalar components and moduli of the encodings up to the bound; every truncation point",
 "tests compare two default sets and round-trip valid encodings only",
 ["rlwe/params.go","ckks/params.go","utils/utils.go"],[("component-wise comparison","rlwe/params.go"),("binary layout","rlwe/params.go")])
p("C14","Decryption recovers the plaintext plus the encryption noise",
 "For every plaintext, key and randomness, decrypting a ciphertext produced by either key kind, with or without special primes, returns at the common level the plaintext plus an error that equals the combination of the sampled small polynomials (divided by the special primes when those are used, with rounding error at most a few units). This holds for every combination of transformed and coefficient-domain inputs and outputs and for ciphertexts of any degree.",
 ["inputs","configurations"],"all message, key and sample polynomials at ring degree 16; all domain flags, levels and both key kinds",
 "tests encrypt the zero polynomial a few times and bound the noise statistically",
 ["rlwe/encryptor.go","rlwe/decryptor.go"],[("encryptor variants","rlwe/encryptor.go"),("Horner decryption","rlwe/decryptor.go")])
p("C15","Generated keys satisfy the RLWE key equations",
 "Public keys satisfy b + a*s = e, and every gadget row of a switching, relinearisation or rotation key satisfies b_i + a_i*s_out = e_i + P*g_i*s_in modulo all moduli, where e is the sampled error and g_i selects the i-th digit. Rotation keys carry the secret under the inverse of the Galois element they are filed under.",
 ["inputs","configurations"],"all secrets, uniform and error samples at ring degree 16, several numbers of special primes, every Galois element used",
 "tests check noise of one generated key statistically",
 ["rlwe/keygen.go"],[("gadget encryption","rlwe/keygen.go")])
p("C16","Hybrid key switching preserves the phase",
 "Key switching any polynomial with any gadget key returns, in the domain of its input, the gadget inner product divided by the special modulus with an additive error of at most one per coefficient, identically for all moduli and at every level. The hoisted and non-hoisted paths and the path that skips the final division agree.",
 ["inputs","configurations"],"all input polynomials and all gadget key contents at ring degree 16, every level, one and two special primes, both domains",
 "tests check one random polynomial and bound the noise",
 ["rlwe/keyswitch.go","ring/ring_basis_extension.go"],[("lazy accumulation and modulus switch","rlwe/keyswitch.go")])
p("C17","Fast key switching computes the same inner product",
 "The accelerated external product over the auxiliary modulus returns the same gadget inner product divided by the special modulus, with an additive error of at most one per coefficient and identically for all moduli, as the direct computation on the key it was derived from, at every level.",
 ["inputs","configurations"],"all input polynomials and all gadget key contents at ring degree 16, several block sizes and levels",
 "tests check one random polynomial at the top level and bound the noise",
 ["frlwe/keyswitch.go","frlwe/keygen.go"],[("auxiliary-modulus external product","frlwe/keyswitch.go")])
p("C18","Linear homomorphic operations act on the decrypted values",
 "Adding, subtracting, negating, adding or multiplying by constants, multiplying or dividing by the imaginary unit and accumulating scaled ciphertexts acts on every component of the encrypted polynomials as the corresponding linear operation, after both operands are brought to the larger of their scales, with the documented result scale and level. It gives the same result when the receiver is one of the operands (except the accumulating variants), for operands of different degrees, and leaves the other operand unchanged.",
 ["inputs","configurations"],"all component coefficients, degrees 0 to 2, different levels and scales, every receiver aliasing, several constants",
 "no stable test covers the scheme evaluator; aliasing, degree and scale mismatches are never sampled",
 ["ckks/evaluator.go"],[("operand alignment","ckks/evaluator.go")])
p("C19","Homomorphic products, relinearisation and rotations act on the decrypted values",
 "Multiplying ciphertexts or plaintexts yields components whose phase is the product of the phases at the product of the scales; relinearising, switching keys, rotating and conjugating yields the phase of the corresponding operation up to the key-switching error. This holds for squares, accumulation into the receiver, every level and when the receiver is one of the operands.",
 ["inputs","configurations"],"all component coefficients and key contents at ring degree 16, all receiver aliasings, levels",
 "no stable test covers the scheme evaluator",
 ["ckks/evaluator.go"],[("tensor product and key switch","ckks/evaluator.go")])
p("C20","Rescaling divides by the dropped moduli and never past the last level",
 "Rescaling divides every component by the largest number of trailing moduli that keeps the scale at least half the requested minimum, never dropping the last modulus, rounds to nearest, and updates scale and level accordingly or returns an error without crashing. Dropping levels keeps the remaining residues.",
 ["inputs","configurations"],"all component coefficients, scales and thresholds, every level",
 "no stable test covers rescaling at scheme level",
 ["ckks/evaluator.go","ring/ring_scaling.go"],[("rescale loop","ckks/evaluator.go")])
p("C21","Encoding is linear, exact to rounding, and multiplicative on slots",
 "Encoding real values into coefficients stores the nearest integer of value times scale modulo every modulus, and decoding returns the centred integer divided by the scale. The slot encoding is inverted by the decoding, and products and automorphisms of encoded polynomials act slot-wise and rotate the slots, for every number of slots.",
 ["inputs","configurations"],"all values in the stated magnitude range at ring degree 16, every slot count, float rounding bounded",
 "no stable test covers the encoder",
 ["ckks/encoder.go","ckks/utils.go","ckks/ckks_vector_ops.go"],[("special Fourier transform","ckks/ckks_vector_ops.go"),("fixed-point rounding","ckks/utils.go")])
p("C22","The accelerated scheme evaluator agrees with the reference evaluator",
 "Multiplication with relinearisation and rotation in the accelerated scheme yield, at every level, a ciphertext whose components equal those of the reference gadget computation up to an error of at most one per coefficient, with the right scale, and are correct when the receiver is one of the operands.",
 ["inputs","configurations"],"all component coefficients and key contents at ring degree 16, every level and receiver aliasing",
 "the scheme tests are not in the stable set and sample random messages at the top level",
 ["fckks/evaluator.go","frlwe/keyswitch.go"],[("fast key switch in MulRelin and Rotate","fckks/evaluator.go")])
p("C23","Ring-degree and ring-type switching embed and project exactly",
 "Switching a polynomial or ciphertext to a larger degree substitutes X^(N/n), switching to a smaller degree keeps exactly the coefficients of X^(N/n), the embedding of the conjugate-invariant ring into the standard ring of twice the degree is exact in both domains and the folding map back adds the image under X -> 1/X (so it doubles an embedded polynomial). All write to the receiver only.",
 ["inputs","configurations"],"all coefficient values for degrees 16 and 32 (64 thorough), every level",
 "tests switch one random ciphertext and check statistically",
 ["rlwe/elements.go","ring/conjugate_invariant.go","ring/ring_automorphism.go"],[("coefficient maps","rlwe/elements.go")])
p("C24","Copies never share mutable storage with their source",
 "A deep copy of any polynomial, plaintext, ciphertext or key equals its source and shares no mutable storage with it, and a shallow copy of an evaluator-like object shares no scratch buffer with the original, so interleaved use of the two gives the results of separate use. Copying into an existing object transfers values, flags and scale.",
 ["inputs","histories"],"all contents; every write to one object after the copy, in either direction",
 "tests only compare values right after the copy",
 ["ring/ring_poly.go","rlwe/elements.go","rlwe/keys.go","rlwe/encryptor.go","rlwe/keyswitch.go"],[("copy methods","ring/ring_poly.go")])
p("C25","Integer and slice helpers compute their mathematical definition",
 "Slice equality, distinctness, membership, rotation, bit reversal, Hamming weight, minimum and maximum helpers return their mathematical definition for every input, including slices of different lengths, negative rotations and empty or repeated elements.",
 ["inputs"],"all element values for slices up to length 4 and all 64-bit words; all rotation amounts in range",
 "tests cover a few literal inputs",
 ["utils/utils.go","utils/buffer.go"],[("helpers","utils/utils.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
