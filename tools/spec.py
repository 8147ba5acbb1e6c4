AI = "abstract interpretation of the type-checked MIR over a polynomial normal-form domain"
BASE_ASSUME = [
    "the field type's operations implement field arithmetic (they are modelled, not analysed, here)",
    "the standard library and rayon behave as modelled; parallel iteration is order-preserving",
    "the MIR of the installed nightly compiler for the same source is what the pinned compiler builds",
]
NOTE = ("Static, for all values of the quantified field elements: every obligation is an identity of normal forms "
        "computed by abstractly interpreting the monomorphised MIR of the current tree. Trusts the interpreter and its "
        "models of the standard library and of field arithmetic. Constructs outside the domain leave an obligation "
        "undecided (reported, never an alarm).")

def q(over, text):
    return {"over": over, "text": text}

PROPS = [
 dict(id="P01", title="Native and in-circuit gate constraints are the same polynomials",
  statement="For every gate and every supported pair of cycle curves, evaluating the gate's constraints natively and evaluating them with targets inside a recursive circuit yield the same list of values, for all constants and all local, right and below wire values. The same holds for the unified constraint list of all gates that prover, verifier and recursive verifier use. In-circuit evaluation restricts none of its inputs.",
  quantifier=q(["inputs", "configurations"], "all assignments of field elements to constants and to local/right/below wires, all gates, all curve pairs"),
  why_tests_cant="The test suite only interpolates the degree of native constraints on random wires; the in-circuit versions are never compared with the native ones.",
  anchors=dict(files=["src/gates/mod.rs", "src/gates/*.rs"], mechanism=[
    dict(name="evaluate_unfiltered / evaluate_unfiltered_recursively of each gate", where="src/gates/"),
    dict(name="evaluate_all_constraints / evaluate_all_constraints_recursively", where="src/gates/mod.rs")]),
  rules=["gates", "gcomb_rec"], technique=AI,
  level_note=NOTE,
  explanation="For each gate type found in the trait's implementors and each cycle pair: the native evaluation is interpreted on symbolic constants and wires; the in-circuit evaluation is interpreted on a real (interpreted) circuit builder, and what the recorded gates and copy constraints force the result targets to be is derived; both lists must agree in length and as polynomials. Likewise for the unified list.",
  assumptions=BASE_ASSUME),
 dict(id="P02", title="Unified constraint set selects exactly the active gate within degree bound",
  statement="Gate selector prefixes are prefix-free, and with a gate's selector in the constants the unified constraint list equals exactly that gate's own constraints, padded with zeros. The total degree of every unified constraint in constants and wires stays within what the quotient polynomial accommodates.",
  quantifier=q(["inputs", "configurations"], "all gates, curve pairs, wire values and remaining constants"),
  why_tests_cant="Tests build a handful of circuits; a constraint dropped, duplicated or leaking into another gate's rows only shows on assignments no honest prover produces.",
  anchors=dict(files=["src/gates/mod.rs", "src/gates/*.rs", "src/lib.rs"], mechanism=[
    dict(name="evaluate_filtered / evaluate_prefix_filter", where="src/gates/mod.rs"),
    dict(name="evaluate_all_constraints", where="src/gates/mod.rs"),
    dict(name="PREFIX of each gate; QUOTIENT_POLYNOMIAL_DEGREE_MULTIPLIER", where="src/gates/, src/lib.rs")]),
  rules=["gcomb_sel"], technique=AI, level_note=NOTE,
  explanation="The unified constraint list is interpreted on symbolic inputs with each gate's prefix constants, and compared with the gate's own constraint polynomials; prefixes are read from the evaluated constants; degrees are read off the normal forms.",
  assumptions=BASE_ASSUME),
 dict(id="P03", title="Gate witness generators satisfy their gate and are pinned by it",
  statement="For every gate, running its witness generator on arbitrary admissible input wires yields output wires on which all of that gate's constraints vanish. The generator reads only targets it declares as dependencies and writes no wire it does not own. Given the input wires, the gate's constraints admit no other value for any output wire the generator writes.",
  quantifier=q(["inputs", "configurations"], "all admissible input wire values (generic position for additions), all constants, all gates and curve pairs"),
  why_tests_cant="Only a few gates are exercised end to end, on single inputs, and an under-constrained output wire is invisible to any honest execution.",
  anchors=dict(files=["src/gates/*.rs"], mechanism=[
    dict(name="WitnessGenerator::generate / dependencies of each gate", where="src/gates/"),
    dict(name="evaluate_unfiltered of each gate", where="src/gates/")]),
  rules=["ggen"], technique=AI + "; constraint-driven value derivation", level_note=NOTE + " Addition gates are decided in generic position (distinct x coordinates).",
  explanation="Each generator is interpreted on a witness holding only its declared dependencies as free symbols (boolean/limb inputs are case-split by the roots the gate's own constraints allow). The written wires are substituted in the gate's constraint polynomials, which must vanish identically; then the constraints alone are solved for the outputs and must force the generated values.",
  assumptions=BASE_ASSUME + ["range-check gates without outputs have no generator obligations"]),
 dict(id="P04", title="Elliptic-curve point operations compute the group law",
  statement="On every supported curve, addition of points (affine, projective, mixed), doubling, negation, representation changes, equality tests and validity tests agree with the group law of the curve for all curve points and all projective representatives, including the identity, equal and opposite operands. Batch conversions and batch or pairwise summations of affine points equal the sum, or the pointwise conversion, of their entries.",
  quantifier=q(["inputs", "configurations"], "all points of odd prime order and the identity, all projective representatives, all curves; batches up to the sizes enumerated in the evidence"),
  why_tests_cant="Tests use multiples of one generator, almost always in generic position and with z=1; exceptional cases with arbitrary z and mixed identity positions in a batch are not sampled.",
  anchors=dict(files=["src/curve/curve.rs", "src/curve/curve_adds.rs", "src/curve/curve_summations.rs"], mechanism=[
    dict(name="Add / Neg / double / to_affine / to_projective / PartialEq", where="src/curve/curve.rs, src/curve/curve_adds.rs"),
    dict(name="affine_(multi)summation_*", where="src/curve/curve_summations.rs")]),
  rules=["glaw", "gbatch"], technique=AI + "; trace partitioning on path conditions", level_note=NOTE + " Batches are enumerated up to small sizes with every placement of identities and coincidences.",
  explanation="Each operation is interpreted on symbolic coordinates for every shape (identity flags, equal, opposite, generic) and each feasible path's result is compared, as a cross-multiplied polynomial identity modulo the curve equation, with the affine chord-and-tangent law.",
  assumptions=BASE_ASSUME + ["points lie in the odd prime-order subgroup, so no point has y = 0"]),
 dict(id="P05", title="Field and curve parameters are mutually consistent",
  statement="For every field, the stated order is prime and all derived constants (Montgomery constants, small constants, bit and byte sizes, two-adicity, its cofactor, generator, the S-box exponent) satisfy their defining relations. For every curve, the curve is non-singular, the generator lies on it and has the scalar field's order, the endomorphism constants are matching primitive cube roots of unity, and the 2-cycles are cycles. The permutation argument's coset shifts are deterministic, nonzero and independently drawn per wire.",
  quantifier=q(["configurations"], "all fields, all curves, all curve pairs"),
  why_tests_cant="A wrong constant that no test computation touches compiles and passes; coset collisions and non-permutation exponents never show on honest inputs.",
  anchors=dict(files=["src/field/*.rs", "src/curve/*_curve.rs", "src/partition.rs"], mechanism=[
    dict(name="MontyRepr and Field constants", where="src/field/"),
    dict(name="Curve / HaloCurve constants", where="src/curve/"),
    dict(name="get_subgroup_shift", where="src/partition.rs")]),
  rules=["fconst", "cconst", "coset"], technique="compile-time constant evaluation over the type-checked program, with number-theoretic relation checking; " + AI,
  level_note="Static: every constant is read from the compiler's own evaluation of the associated constants of the current tree and checked against its defining relation (primality by a strong test on fixed bases).",
  explanation="All implementors of the field and curve traits are enumerated; each constant is const-evaluated and its relation is checked with exact integer arithmetic.",
  assumptions=["primality is decided by Miller-Rabin with fixed bases", "seeded random draws for different seeds are distinct and outside small subgroups"]),
 dict(id="P06", title="Arithmetic, boolean and point gadgets are complete and uniquely determined",
  statement="Each arithmetic, boolean, comparison, selection, binary-splitting and curve-point gadget of the circuit builder constrains its output targets to exactly the documented function of its inputs (or asserts exactly the documented relation), whichever inputs are constants, shared or virtual. No assignment satisfies the circuit with other outputs, and no documented input is rejected. Witness generation runs to completion, without conflicts, and satisfies every constraint for every admissible input.",
  quantifier=q(["inputs", "configurations"], "all input values (nonzero divisors, distinct abscissas), all patterns of constant/virtual/shared inputs, all curve pairs"),
  why_tests_cant="Tests evaluate a gadget on honest witnesses only; a gadget whose output is not pinned down, or one that misbehaves when an operand is a constant or cached, passes them.",
  anchors=dict(files=["src/circuit_builder.rs", "src/circuit_curve.rs", "src/circuit_ordering.rs"], mechanism=[
    dict(name="arithmetic, conditionals, comparison, binary splitting", where="src/circuit_builder.rs, src/circuit_ordering.rs"),
    dict(name="curve_add / curve_double / curve_neg / curve_sub / curve_assert_valid", where="src/circuit_curve.rs")]),
  rules=["gadget", "cgadget"], technique=AI + "; constraint-driven value derivation on the constructed circuit", level_note=NOTE + " Each gadget is instantiated twice in one builder, so that caching and cross-talk between instances are visible; variadic gadgets up to enumerated sizes.",
  explanation="The gadget is interpreted on an (interpreted) circuit builder. From the recorded gates, constants and copy constraints alone the value of each output target is derived and compared with the specification, and the residual constraints on inputs must be exactly the documented assertions. Then the recorded witness generators are interpreted to a fixpoint on symbolic inputs and the resulting wires must satisfy every constraint. Boolean outputs are case-split.",
  assumptions=BASE_ASSUME + ["scalar-multiplication, range-check, big-integer and square-root gadgets are out of scope of this property"]),
 dict(id="P07", title="Every gate enforces its documented function",
  statement="Each gate type's native constraints force its output wires to the documented function of its inputs: constant, multiply-add, buffer, public input, base-4 accumulation, Rescue half-rounds, curve doubling, conditional curve addition and endomorphism addition with their unsigned scalar accumulators. Bit and limb wires are restricted to exactly their range, and no other restriction is put on the inputs.",
  quantifier=q(["inputs", "configurations"], "all values of input wires and constants (distinct abscissas for additions), all curve pairs"),
  why_tests_cant="No test evaluates most gates' constraints on non-honest wires, and none compares a gate with its documentation for all values.",
  anchors=dict(files=["src/gates/*.rs"], mechanism=[dict(name="evaluate_unfiltered of each gate", where="src/gates/")]),
  rules=["gsem"], technique=AI + "; constraint-driven value derivation", level_note=NOTE + " CurveEndoGate's signed accumulator is not specified here (its multiplier is a known TODO in the source).",
  explanation="Gate constraints are interpreted on symbolic wires with the gate's selector prefix; each output wire is solved from the constraints, given the inputs, and compared with a specification written from the gate's documentation. The roots of the range constraints are computed and must be exactly the documented range.",
  assumptions=BASE_ASSUME),
 dict(id="P08", title="Rescue permutation, sponge and hashes follow the specification everywhere",
  statement="For every field the native Rescue permutation, sponge and fixed-arity hashes equal the specified construction (alternating S-boxes, MDS mixing and round constants; absorption by addition in rate-sized chunks, a permutation per chunk, squeezing in rate-sized chunks) on all inputs and lengths. The in-circuit versions are uniquely determined by, satisfied by, and equal to the native ones. Round constants and the MDS matrix are deterministic in their parameters and the matrix is maximum distance separable.",
  quantifier=q(["inputs", "configurations"], "all input values; input/output lengths and widths up to the enumerated sizes; all fields, all cycle pairs"),
  why_tests_cant="One native/in-circuit comparison on a fixed input cannot show agreement for other lengths or that the circuit admits no second output.",
  anchors=dict(files=["src/rescue.rs", "src/mds.rs", "src/circuit_builder.rs", "src/gates/rescue_a.rs", "src/gates/rescue_b.rs"], mechanism=[
    dict(name="rescue_permutation / rescue_sponge / rescue_hash_*", where="src/rescue.rs"),
    dict(name="generate_rescue_constants / recommended_rounds", where="src/rescue.rs"),
    dict(name="mds_matrix / MdsMatrix", where="src/mds.rs"),
    dict(name="rescue gadgets", where="src/circuit_builder.rs")]),
  rules=["rescue", "mds"], technique=AI + "; constraint-driven value derivation on the constructed circuit", level_note=NOTE + " Inverse S-boxes are kept as symbolic roots; seeded random draws are symbolic, identical for identical seeds.",
  explanation="The native functions are interpreted on symbolic state and compared with an independent specification in normal form; the in-circuit functions are interpreted on a builder, the forced values of the outputs are derived from the constraints and compared, and the witness generators are run symbolically. MDS: every square minor of the matrix is shown nonzero.",
  assumptions=BASE_ASSUME + ["seeded random draws are a deterministic function of seed and position"]),
 dict(id="P09", title="The Fiat-Shamir challenger binds each draw to all earlier messages",
  statement="For every interleaving of observations and draws, each challenge drawn depends on every message observed before it and on their order, and no two draws from one transcript are the same function of it. Messages only enter the rate part of the sponge and draws only come from it. The in-circuit challenger is forced to the draws of the native one, for all message values.",
  quantifier=q(["inputs", "histories"], "all message values; all interleavings of observations and draws up to the enumerated rounds and lengths; all fields that are scalar fields of the curve pairs"),
  why_tests_cant="A repeated or unbound challenge leaves honest proofs valid, so no test that proves and verifies can see it.",
  anchors=dict(files=["src/plonk_challenger.rs"], mechanism=[
    dict(name="Challenger::observe_element / get_challenge / get_n_challenges", where="src/plonk_challenger.rs"),
    dict(name="RecursiveChallenger", where="src/plonk_challenger.rs")]),
  rules=["chal"], technique=AI + " over an uninterpreted permutation; information-flow on the resulting terms", level_note=NOTE + " The sponge has no length padding; collisions between messages padded with zeros to a full chunk are outside the property.",
  explanation="The challenger is interpreted with the Rescue permutation replaced by an uninterpreted function; every draw is a term over the messages, on which dependence, order, distinctness and the capacity rule are read off. The in-circuit version is built symbolically and the forced draws compared.",
  assumptions=BASE_ASSUME + ["the Rescue permutation behaves as a random permutation"]),
 dict(id="P10", title="Every verifier challenge binds the statement and all earlier messages",
  statement="Each challenge the verifier derives from a proof (beta, gamma, alpha, zeta, v, u, u_scaling, each opening round's challenge, and the Schnorr challenge) depends on every prover message that precedes it in the protocol. From alpha on it also depends on all public inputs, and from zeta on on every old proof's point. The challenges are pairwise different functions of the transcript.",
  quantifier=q(["inputs", "configurations"], "all proofs, public inputs and old proofs; all numbers of rounds, public inputs and old proofs in the enumerated set; all curves of the cycles"),
  why_tests_cant="Prover and verifier can consistently omit a message from the transcript; every honest proof still verifies, yet proofs can be forged.",
  anchors=dict(files=["src/plonk_proof.rs", "src/plonk_challenger.rs"], mechanism=[
    dict(name="Proof::get_challenges", where="src/plonk_proof.rs"),
    dict(name="OpeningSet::to_vec", where="src/plonk_proof.rs")]),
  rules=["bind"], technique=AI + "; information-flow from transcript messages to challenges", level_note=NOTE + " The verification key and the challenges of old proofs are not transcript messages in this protocol.",
  explanation="get_challenges is interpreted on a fully symbolic proof; each challenge is a term in which the atoms of every message that must precede it are looked for.",
  assumptions=BASE_ASSUME + ["the Rescue permutation is an uninterpreted function"]),
 dict(id="P11", title="The verifier accepts only proofs satisfying every protocol equation",
  statement="verify_proof returns Ok only if the quotient identity at zeta, the public input identity, every old proof's opening and the inner product argument's final equation hold, and every point of the proof is valid. If asked to verify G, the folded generator equation must hold too; otherwise the returned deferred claim holds exactly the proof's point and round challenges. Proofs whose lists do not have the lengths prescribed by the key and the old proofs are rejected.",
  quantifier=q(["inputs", "configurations"], "all proofs, public inputs, old proofs and verification keys; all sizes in the enumerated set; all curve pairs"),
  why_tests_cant="Tests only verify honest proofs; an equation that is dropped, weakened or checked for some list entries only is invisible to them.",
  anchors=dict(files=["src/verifier.rs", "src/halo.rs", "src/plonk_proof.rs"], mechanism=[
    dict(name="verify_proof / verify_all_ipas / verify_old_proof_evaluation", where="src/verifier.rs"),
    dict(name="check_proof_parameters / check_proof_shape", where="src/verifier.rs"),
    dict(name="verify_ipa", where="src/halo.rs")]),
  rules=["verif"], technique=AI + "; trace partitioning on the accepting paths", level_note=NOTE + " Curve points are elements of a free module over the scalar field, the generators independent basis vectors.",
  explanation="verify_proof is interpreted on a symbolic proof. On every path that returns Ok, the branch conditions taken must include (up to normalisation) each equation of an independent specification of the protocol, the validity of every point, and each length. Malformed lengths must have no accepting path.",
  assumptions=BASE_ASSUME + ["multi-scalar multiplication computes the linear combination (P04 decides the additions)", "the n(.) map of halo challenges is uninterpreted"]),
 dict(id="P12", title="Honest proofs of satisfied circuits are accepted",
  statement="For every circuit, witness, list of old proofs and choice of blinding, a proof generated for constraints that vanish at zeta (that is, a satisfied circuit) is accepted by verify_proof with the circuit's key, with or without stored precomputations and with or without verification of G, and however often the prover had to draw a challenge again. The public inputs reported by the circuit are the ones with which the proof verifies.",
  quantifier=q(["inputs", "configurations"], "all advice wire values, blinding randomness, challenges and old proofs; degrees, numbers and positions of public inputs and old proofs in the enumerated set"),
  why_tests_cant="Tests prove a handful of circuits; sizes at which public input gates fill exactly, keys without precomputations, several old proofs and unblinded commitments are rarely or never combined.",
  anchors=dict(files=["src/plonk.rs", "src/verifier.rs", "src/halo.rs", "src/poly_commit.rs", "src/plonk_util.rs"], mechanism=[
    dict(name="Circuit::generate_proof / to_vk / get_public_inputs", where="src/plonk.rs"),
    dict(name="batch_opening_proof", where="src/halo.rs"),
    dict(name="verify_proof", where="src/verifier.rs")]),
  rules=["complete"], technique=AI + "; composition of prover and verifier in one symbolic domain", level_note=NOTE + " Routed wires and sigma values are fixed constants, all other wires, commitments' randomness and challenges are symbolic.",
  explanation="The prover is interpreted on a symbolic witness; the resulting symbolic proof is given to the interpreted verifier. Every path on which the verifier rejects must have decided that the (opaque) quotient identity fails.",
  assumptions=BASE_ASSUME + ["challenges avoid the exceptional values at which a denominator vanishes", "multi-scalar multiplication computes the linear combination"]),
 dict(id="P13", title="The prover's polynomials are those of the verifier's equations",
  statement="For every circuit, witness and challenge values, the vanishing polynomial the prover divides by Z_H equals, at each of the 8n points, the verifier's combination of gate constraints, permutation checks and the boundary term there. The permutation polynomial starts at one and follows the grand-product recurrence over every routed wire with the verifier's shifts and sigmas. No term, wire, row or constraint is left out or combined with another power of alpha.",
  quantifier=q(["inputs", "configurations"], "all wire values, constants, sigma values and challenges; enumerated circuit degrees; all curve pairs"),
  why_tests_cant="Tests check one random instance end to end; agreement for every value of wires and challenges, at each point of the coset, is an identity of polynomials.",
  anchors=dict(files=["src/plonk.rs", "src/plonk_util.rs", "src/verifier.rs"], mechanism=[
    dict(name="Circuit::vanishing_poly", where="src/plonk.rs"),
    dict(name="permutation_polynomial / reduce_with_powers / eval_l_1", where="src/plonk_util.rs")]),
  rules=["quot"], technique=AI + "; term-by-term comparison with the verifier's formula", level_note=NOTE + " Circuit degree is enumerated; the wire evaluations on the 8n domain are independent symbols.",
  explanation="The prover's functions are interpreted on symbolic evaluations; each coefficient of the result is compared with an independent specification of the verifier's identity, in normal form.",
  assumptions=BASE_ASSUME),
 dict(id="P14", title="Building a circuit preserves exactly its gates, copies and parameters",
  statement="The circuit produced by the builder has a power-of-two number of gates that begins with public input gates and contains every gate added, in order, with its constants. The copy classes declared (and no others) are exactly the cycles of its sigma permutation, which is a bijection of the routed wires. Subgroups, generators, blinding rows, commitment key, preprocessed polynomials and their commitments are the ones its size and gates determine.",
  quantifier=q(["inputs", "configurations"], "all gate constants; an enumerated set of builder programs covering public inputs, copies in chains and between gates of one row class, asserts and routing of every target kind; all curve pairs"),
  why_tests_cant="A dropped copy constraint or a merged class leaves every honest proof valid; tests never inspect the permutation of a built circuit.",
  anchors=dict(files=["src/circuit_builder.rs", "src/partition.rs", "src/plonk.rs", "src/gates/mod.rs"], mechanism=[
    dict(name="CircuitBuilder::build / add_gate / copy / get_routing_partitions", where="src/circuit_builder.rs"),
    dict(name="TargetPartitions / WirePartitions::to_sigma", where="src/partition.rs"),
    dict(name="sigma_polynomials", where="src/plonk_util.rs")]),
  rules=["build"], technique=AI + "; graph comparison of copy classes with permutation cycles", level_note=NOTE + " Builder programs are enumerated; hash map iteration is in insertion order.",
  explanation="Builder programs are interpreted; the resulting circuit's fields are compared with those computed independently from the recorded gates and copy constraints.",
  assumptions=BASE_ASSUME + ["seeded or system random draws are independent symbols"]),
 dict(id="P15", title="Witness generation fills circuits completely and consistently",
  statement="For admissible inputs, generate_witness gives every target the value of the expression it stands for, so that all gates, all copy constraints and the public input routing are satisfied. This holds whatever kind of target a generator depends on and in whatever order hash maps are iterated. The public inputs read back from the witness are those given or computed.",
  quantifier=q(["inputs", "configurations", "schedules"], "all input values; an enumerated set of builder programs (given and computed public inputs in every gate position, chains in reverse order, shared values, no inputs); three iteration orders of hash maps and sets; all curve pairs"),
  why_tests_cant="Tests use a few circuits and one iteration order per run, and unset wires silently become zero.",
  anchors=dict(files=["src/plonk.rs", "src/witness.rs", "src/target.rs", "src/circuit_builder.rs", "src/gates/public_input.rs"], mechanism=[
    dict(name="Circuit::generate_partial_witness / generate_copies", where="src/plonk.rs"),
    dict(name="PartialWitness::replace_public_inputs / copy_buffer_to_pi_gate", where="src/witness.rs"),
    dict(name="Witness::from_partial", where="src/witness.rs")]),
  rules=["wit"], technique=AI, level_note=NOTE + " Builder programs and iteration orders are enumerated.",
  explanation="A program is built and its witness generated in the interpreter on symbolic inputs; the resulting wire values are substituted into every row's constraints, each recorded copy constraint and the expected expressions.",
  assumptions=BASE_ASSUME + ["seeded or system random draws are independent symbols", "divisors are nonzero"]),
 dict(id="P16", title="Polynomial arithmetic, FFTs and folding helpers are exact",
  statement="Over every field, the (inverse) FFT evaluates and interpolates exactly on the subgroup in order, and polynomial evaluation, comparison, padding, addition, multiplication and division by x^n - 1 are exact whatever zeros the operands contain. Both division functions return quotient and remainder with a remainder of smaller degree for every nonzero divisor, without panicking. Powers, linear combinations, L_1, the zero polynomial and the Halo folding polynomial equal their definitions.",
  quantifier=q(["inputs"], "all nonzero coefficient values; every pattern of zero coefficients and all lengths up to the enumerated sizes; divisions also on small integer coefficients on which intermediate terms cancel; all fields"),
  why_tests_cant="Tests use random dense polynomials, on which no coefficient is ever zero.",
  anchors=dict(files=["src/polynomial.rs", "src/fft.rs", "src/plonk_util.rs"], mechanism=[
    dict(name="Polynomial::mul / add / eval / polynomial_division / polynomial_long_division / divide_by_z_h", where="src/polynomial.rs"),
    dict(name="fft_precompute / fft_with_precomputation / ifft_with_precomputation_power_of_2", where="src/fft.rs"),
    dict(name="eval_poly / powers / reduce_with_powers / eval_l_1 / halo_s / halo_g / scale_polynomials", where="src/plonk_util.rs")]),
  rules=["poly"], technique=AI, level_note=NOTE + " Lengths are enumerated (FFTs up to 16, dividends up to 9 coefficients).",
  explanation="Each function is interpreted on symbolic coefficients for every zero pattern of each length, and the result compared with schoolbook arithmetic in normal form.",
  assumptions=BASE_ASSUME + ["sums of independent nonzero symbols that are not identically zero are treated as nonzero (special coincidences are covered by the small integer cases only)"]),
 dict(id="P17", title="Scalar and multi-scalar multiplication and commitments are exact",
  statement="Scalar multiplication, sequential and parallel multi-scalar multiplication with or without precomputation, and Halo's bit-pair multiplication return exactly the stated combination of the generators, for every window size and every bit of the scalars. Commitments equal the combination of the generators plus their randomness times the blinding point, one per polynomial and in order; randomness is drawn afresh for every blinded commitment and is zero otherwise; converting a mixed list to affine coordinates keeps order, points and randomness.",
  quantifier=q(["inputs"], "all generators and coefficients; scalars: all values of a short length, and every power of two, runs of ones and values near the order at full length; window sizes up to 13; all curves"),
  why_tests_cant="Tests multiply a few dense scalars with one window size and never look at the randomness of commitments.",
  anchors=dict(files=["src/curve/curve_msm.rs", "src/curve/curve_multiplication.rs", "src/poly_commit.rs", "src/plonk_util.rs"], mechanism=[
    dict(name="msm_precompute / msm_execute / msm_execute_parallel / msm_parallel", where="src/curve/curve_msm.rs"),
    dict(name="mul_precompute / mul_with_precomputation / CurveScalar::mul", where="src/curve/curve_multiplication.rs"),
    dict(name="PolynomialCommitment", where="src/poly_commit.rs"),
    dict(name="commit_polynomials / pedersen_hash / halo_n_mul", where="src/plonk_util.rs")]),
  rules=["msm", "commit"], technique=AI, level_note=NOTE + " Group elements are elements of the free module over symbolic generators (the group law itself is P04's); the short scalars use a reduced Field::BITS.",
  explanation="The functions are interpreted over a free module on symbolic points and each result is compared with the linear combination it should be.",
  assumptions=BASE_ASSUME + ["scalars of full length are sampled structurally (every single bit, runs of ones, extremes)", "batch sums of affine points equal the sum of their arguments (decided by P04)"]),
 dict(id="P18", title="Field limb arithmetic and canonical conversions are exact",
  statement="For all reduced words, addition, subtraction, multiplication, negation, squaring, small multiples and inversion (when its loop ends; zero has no inverse) give the fully reduced words of the result modulo the order, and equality and ordering compare canonical integers. Conversions to and from canonical words, bytes and bits, including conversion to another field, preserve the integer, and succeed exactly on the right length and integers below the order; random elements are below the order.",
  quantifier=q(["inputs"], "all words of reduced elements (and all words, for parsing and for drawn randomness) of all six fields"),
  why_tests_cant="Carries, borrows and final subtractions go wrong on a few words out of 2^256; tests sample words near zero and the order.",
  anchors=dict(files=["src/field/*.rs", "src/bigint/*.rs"], mechanism=[
    dict(name="MontyRepr::monty_add / monty_sub / monty_neg / monty_multiply / monty_square / monty_inverse", where="src/field/monty.rs"),
    dict(name="Field and operator impls of the six fields", where="src/field/"),
    dict(name="canonical conversions, num_bits, cmp_helper, try_convert", where="src/field/field.rs"),
    dict(name="cmp / add_no_overflow / sub / mul2 / div2 / rand_range / nonzero_multiplicative_inverse", where="src/bigint/")]),
  rules=["limbs"], technique="abstract interpretation of the type-checked MIR over integer polynomials with intervals, with loop invariants for inversion",
  level_note="Static, for all words: on every path of the machine-word code the result, as an integer polynomial in the input words with carries as bounded atoms, is shown congruent to the required value and below the order. An obligation not shown is reported only with a concrete element on that path at which the derived polynomial is wrong; otherwise it is undecided. Termination of the inversion loop is not claimed.",
  explanation="Every operation is interpreted with symbolic words in a domain of integer polynomials, floors and intervals; paths are split at comparisons and overflow bits. Inversion: the loop invariants b*a = u and c*a = v modulo the order are shown inductive, and the change of representation around it is checked separately.",
  assumptions=["primitive integer operations behave as documented"] + BASE_ASSUME[1:]),
 dict(id="P19", title="Powers, roots, batch inverses and subgroups are exact",
  statement="In every field, exponentiation returns the power for every exponent below the order, k-th roots invert k-th powers, residuosity is reported exactly for squares, and every square (and nothing else) has a square root, whose square is the element. Single and batch inverses are the inverses of each element in order, with none for zeros wherever they stand. Roots of unity have exactly the requested order, subgroups list the powers of their generator once and in order, and slice operations apply to every pair and reject lists of different lengths.",
  quantifier=q(["inputs"], "all base elements; exponents: every bit position and its neighbours, word boundaries, extremes and small values; square roots: all odd-order parts times enumerated two-power parts of every order; lists up to 4 elements with every zero pattern; all six fields"),
  why_tests_cant="Tests take roots of a few squares and never of non-squares; batch inversion of lists with zeros in particular positions and exponents at word boundaries are not sampled.",
  anchors=dict(files=["src/field/field.rs"], mechanism=[
    dict(name="Field::exp / exp_u32 / exp_usize / kth_root / kth_root_u32", where="src/field/field.rs"),
    dict(name="Field::square_root / is_quadratic_residue / primitive_root_of_unity", where="src/field/field.rs"),
    dict(name="Field::batch_multiplicative_inverse(_opt) / multiplicative_inverse / inner_product / add_slices / scale_slice", where="src/field/field.rs"),
    dict(name="Field::cyclic_subgroup_known_order / cyclic_subgroup_unknown_order / generator_order", where="src/field/field.rs")]),
  rules=["fieldops"], technique="abstract interpretation of the type-checked MIR in a domain of exponents (powers of a symbolic element times roots of unity) and of rational functions",
  level_note=NOTE + " Exponents and orders of the two-power part are enumerated.",
  explanation="Powers and roots are interpreted on an element known only as x^n z^c, with x of odd order arbitrary and z of two-power order; results are compared as exponents modulo the order of the group. Lists are interpreted on symbolic elements, split at which of them are zero.",
  assumptions=BASE_ASSUME + ["field addition, multiplication and inversion are exact (decided by P18)"]),
 dict(id="P20", title="Serialized elements, points, proofs and keys read back unchanged",
  statement="Reading what was written gives back the same field element or affine point (either square root, and infinity) and consumes exactly the written bytes; shorter input is an error. Elements are read exactly from the bytes of integers below the order, and whatever bytes are read, the result is a point of the curve or an error. Every type that can be serialized with serde (proofs, openings, verification keys, precomputations, points, elements) deserializes from named or, where no field is left out, positional fields to an equal value.",
  quantifier=q(["inputs"], "all elements and points of all curves, arbitrary bytes of every length up to the written one, every presence pattern of optional fields, all instances of the serializable types"),
  why_tests_cant="Tests round-trip random points and one proof; special coordinates, stray bytes behind a value and rarely filled fields are not sampled.",
  anchors=dict(files=["src/serialization.rs", "src/plonk_proof.rs", "src/verifier.rs", "src/fft.rs", "src/curve/curve_msm.rs"], mechanism=[
    dict(name="ToBytes / FromBytes for fields and AffinePoint", where="src/serialization.rs"),
    dict(name="Serialize / Deserialize for fields and AffinePoint", where="src/serialization.rs"),
    dict(name="derived Serialize / Deserialize of Proof, OpeningSet, SchnorrProof, VerificationKey, FftPrecomputation, MsmPrecomputation", where="src/")]),
  rules=["serial"], technique=AI,
  level_note=NOTE + " The low word of y is sampled (both parities); all else is symbolic.",
  explanation="Writers, readers and the (derived) serde implementations are interpreted against a byte list and an abstract serializer that records fields by name; what is read back is compared with the original value on every path.",
  assumptions=BASE_ASSUME + ["serde formats hand back the fields and bytes they were given", "square roots (P19) and canonical byte conversions (P18) are exact"]),
 dict(id="P21", title="Hashing to a curve returns uniform points from the whole seed",
  statement="For every seed, both hash-to-curve functions return an affine point on the curve whose x is the first hashed candidate for which there is one, and the root is chosen by hash bits that x does not use, so every point of the curve can be returned. Every message hashed contains the whole seed and no two attempts of a run hash the same message; integers are hashed as the field element of their value.",
  quantifier=q(["inputs"], "all seeds (symbolic bytes), all hash outputs (symbolic bytes), every pattern of up to 4 rejected candidates and up to 3 unparsable hashes per candidate in the scripted list; all curves"),
  why_tests_cant="Tests only compare two runs on the same seed; a lost byte of the seed, a repeated message or a biased root changes no test.",
  anchors=dict(files=["src/hash_to_curve.rs"], mechanism=[
    dict(name="blake_field / blake_hash_base_field_to_curve / blake_hash_usize_to_curve", where="src/hash_to_curve.rs"),
    dict(name="hash_base_field_to_curve / hash_u32_to_curve / hash_usize_to_curve", where="src/hash_to_curve.rs")]),
  rules=["htc"], technique=AI,
  level_note=NOTE + " Hash output is symbolic, byte by byte; the failures of parsing and of taking roots are enumerated.",
  explanation="The functions are interpreted with the hash as an uninterpreted function from message byte lists to byte lists; the bytes in each message, in x and in the branch choosing the root are traced.",
  assumptions=BASE_ASSUME + ["BLAKE3 and the Rescue sponge (P08) are opaque functions of their message", "the attempt counters do not overflow (256 failures in a row)"]),
 dict(id="P22", title="The plookup verifier accepts only what the lookup argument proves",
  statement="Acceptance of a plookup proof for a table implies that the table commitment is the commitment to the table padded with its last entry, that the quotient identity and the batched opening argument hold for every committed polynomial at zeta and the next row, that the folded generator is the one the round challenges define, and that all points are on the curve. Proofs whose size does not fit a power-of-two domain holding the table, or with the wrong number of rounds, are never accepted. Every challenge depends on all messages that precede it, and no two are the same function of them.",
  quantifier=q(["inputs"], "all proofs and tables (symbolic), domains of 2, 4 and 8 rows, tables of several lengths up to the domain, wrong sizes and round counts enumerated; all cycle curves"),
  why_tests_cant="The tests verify a handful of honest proofs; nothing tests that a dishonest proof, a missing check or an unbound message is caught.",
  anchors=dict(files=["plookup/src/verifier.rs", "plookup/src/proof.rs", "plookup/src/openings.rs"], mechanism=[
    dict(name="verify / check_proof_shape / verify_all_ipas", where="plookup/src/verifier.rs"),
    dict(name="PlookupProof::get_challenges", where="plookup/src/proof.rs"),
    dict(name="PlookupOpenings::local / right / to_vec", where="plookup/src/openings.rs"),
    dict(name="verify_ipa", where="src/halo.rs")]),
  rules=["plk_verif"], technique=AI, plookup=True,
  level_note=NOTE + " Algebraic completeness of the checked equations; computational soundness of the argument is not claimed. Challenges inside the domain (negligible probability) are excluded.",
  explanation="verify and get_challenges are interpreted on a symbolic proof; on every accepting path the required equations must follow from the conditions the path passed, and every earlier message must occur in the term of each challenge.",
  assumptions=BASE_ASSUME + ["the permutation behind the challenger is an uninterpreted function of its state"]),
 dict(id="P23", title="Lookups that are in the table have plookup proofs that are accepted",
  statement="For every table of distinct entries and list of entries of it, inputs are extended with table entries only to fill a domain with room for both, the sorted list follows the table, and the running product starts and ends at one with every row's recurrence. The polynomial the prover divides is the combination the verifier checks, and the proof made commits to all lookups and is accepted. Tables behave as rows compressed with powers of a challenge that depends on every entry, whether looked up by rows or columns, and tabulated functions list arguments followed by the value.",
  quantifier=q(["inputs"], "all values (symbolic, distinct entries, all challenges), tables of 1 to 8 entries and lists of up to 8 lookups (all index patterns up to 2 lookups in 3 entries, samples beyond), widths 1 to 3; all cycle curves"),
  why_tests_cant="Tests use a few random tables whose sizes never meet the boundaries between domains, and one order of lookups.",
  anchors=dict(files=["plookup/src/plookup.rs", "plookup/src/table.rs", "plookup/src/openings.rs"], mechanism=[
    dict(name="prove / pad_inputs / sort_by / grand_polynomial / vanishing_polynomial / eval_l_i", where="plookup/src/plookup.rs"),
    dict(name="open_all_polynomials", where="plookup/src/openings.rs"),
    dict(name="Table::from_function / from_function_cartesian / prove_row / prove_column / verify", where="plookup/src/table.rs")]),
  rules=["plk_prove"], technique=AI, plookup=True,
  level_note=NOTE + " Proofs over domains of more than two rows take the running product and the quotient as opaque polynomials, which the other obligations of this property fix; different entries are taken to be distinct.",
  explanation="Each stage of the prover is interpreted on symbolic tables and challenges and compared with its specification; prove and verify are composed symbolically, and every rejecting path must be excluded.",
  assumptions=BASE_ASSUME + ["the permutation behind the challenger is an uninterpreted function of its state", "challenges avoid the finitely many values at which a denominator vanishes"]),
 dict(id="P24", title="The recursive verifier circuit enforces the equations it states",
  statement="For every proof of 2^k rows with any number of old proofs, the circuit built by recursive_verification_circuit forces its public inputs to the challenges, openings, IPA challenges and old-proof data they stand for, where the challenges are those the sponge draws after everything sent before them. It forces, and restricts the proofs only by, the quotient identity over the data the inner proof exposes, the old proofs' openings at zeta, and the batched opening equation with the native generators. Populating a witness sets each target of a proof to the component it stands for and nothing else.",
  quantifier=q(["inputs"], "all values of all proof components (symbolic); inner proofs of 2, 4 and 8 rows with 0, 1 and 2 old proofs; all cycle curve pairs"),
  why_tests_cant="The only recursion test is ignored (the circuit's placeholders make it fail), so no test looks at what the recursive circuit constrains; a missing copy or unobserved message shows in no honest run.",
  anchors=dict(files=["src/plonk_recursion.rs", "src/plonk_util.rs", "src/plonk_proof.rs", "src/plonk_challenger.rs"], mechanism=[
    dict(name="recursive_verification_circuit / verify_assumptions / verify_all_ipas / compute_halo_q / verify_schnorr", where="src/plonk_recursion.rs"),
    dict(name="powers_recursive / reduce_with_powers_recursive", where="src/plonk_util.rs"),
    dict(name="ProofTarget / OldProofTarget / OpeningSetTarget::populate_witness", where="src/plonk_proof.rs")]),
  rules=["recur"], technique=AI,
  level_note=NOTE + " The circuit's documented placeholders (generator points for the inner circuit's own commitments, openings of public input gates at even powers of the subgroup generator) are taken as they are: that an accepted recursion step implies full native verification is not claimed.",
  explanation="The circuit is built by interpreting the builder; its gate and copy constraints are solved symbolically from the proof's targets, curve operations act on formal scalar combinations, and outputs and remaining restrictions are compared with the native verifier's equations.",
  assumptions=BASE_ASSUME + ["the permutation gadget, curve gadgets and deterministic square root are uninterpreted operations here (P04 to P07 and P21 treat the first two)", "zeta is not a root of unity of the domain"]),
  dict(id="P25", title="Range checks and big integer circuits mean what they say over the integers",
  statement="A range check accepts exactly the values below the given power of four. For operands of every size, the circuits for big integers and for elements of other fields force the sum, product, quotient, remainder, ordering or equality of the integers their limbs denote, with no value that wraps around the native field, with limbs in range, and with declared bounds that hold. For every operand the witness is completed with those values and satisfies all gates; writing such a value, an ordering or a point to a witness and reading it returns it.",
  quantifier=q(["inputs", "programs"], "all limb values (symbolic) for a set of operand bounds from 0 to 516 bits, all cycle curves and all foreign fields among their scalar fields; completeness at extreme values of every operation"),
  why_tests_cant="The tests look at generated values of single operations and never prove: no test reaches the range-check gates' constraints, an unsatisfiable range check passed all of them, and a missing check is only visible to a dishonest prover.",
  anchors=dict(files=["src/circuit_bigint.rs", "src/circuit_foreign_field.rs", "src/circuit_builder.rs", "src/gates/base_4_sum.rs", "src/circuit_ordering.rs", "src/witness.rs"], mechanism=[
    dict(name="bigint_add_many / bigint_mul / bigint_div_rem / bigint_cmp / copy_bigint / target_to_bigint", where="src/circuit_bigint.rs"),
    dict(name="reduce / foreign_field_add_many / foreign_field_mul", where="src/circuit_foreign_field.rs"),
    dict(name="assert_dibit_length / assert_all_base_4 / deterministic_square_root", where="src/circuit_builder.rs"),
    dict(name="PartialWitness accessors of composite targets", where="src/witness.rs")]),
  rules=["bigint"], technique=AI,
  level_note=NOTE,
  explanation="Each gadget is built by interpreting the builder; its constraints, over symbols for the range-checked wires, are lifted from the native field to the integers when interval bounds show that neither side can reach the modulus, and the specified integer equation has to be in their linear span (modulo the order for foreign fields). Comparisons are decided for every pattern of differing limbs.",
  assumptions=BASE_ASSUME + ["the even root of deterministic_square_root is assumed below 2^254, as the method documents", "where arithmetic calls range checks and comparisons, these are taken as specified; both are decided on their own"]),
  dict(id="P26", title="Every message of a blinded proof is masked by its own fresh randomness",
  statement="When a proof is generated with blinding, every polynomial commitment, every L and R of the halo reduction and both responses of the Schnorr protocol contain a random value of their own: one drawn for that message, entering it linearly with a nonzero constant coefficient and found in no message sent before it. This holds for polynomials that are zero and for unused wires too. The opened values contain no commitment randomness, and without blinding commitments contain none.",
  quantifier=q(["inputs", "configurations"], "all witness values and challenges; enumerated degrees, gate counts, numbers of old proofs, zero and unused wires, retried challenges; all curve pairs"),
  why_tests_cant="A nonce used twice or a missing mask changes no accept decision: proofs verify, and only an adversary notices.",
  anchors=dict(files=["src/halo.rs", "src/poly_commit.rs", "src/plonk.rs", "src/plonk_util.rs"], mechanism=[
    dict(name="batch_opening_proof / SchnorrProof", where="src/halo.rs"),
    dict(name="PolynomialCommitment::coeffs_to_commitment", where="src/poly_commit.rs"),
    dict(name="Circuit::generate_proof", where="src/plonk.rs")]),
  rules=["blind"], technique=AI + "; dependence of each message on random atoms",
  level_note=NOTE + " Circuits and configurations are enumerated; each draw from the system's generator is an independent symbol.",
  explanation="The prover is interpreted on a symbolic witness, each random draw being its own atom. For every message, in the order sent, the rule looks for an atom that is linear in it and absent from the messages before it; the nonces of the Schnorr proof have to be separate atoms committed to in its first message.",
  assumptions=BASE_ASSUME + ["draws from the system's generator are independent and uniform", "that masked messages hide the witness computationally, and what the opened values reveal, is not claimed"]),
  dict(id="P27", title="Results do not depend on thread schedule, hash order or earlier calls",
  statement="Apart from proof generation, whose blinding is random, the library's functions return a result determined by their arguments: they read no entropy, clock or environment into it, combine the results of parallel tasks in order, and share no mutable state between tasks. A value cached across calls (MDS matrices, round constants, coset shifts) is the one an empty cache gives, whatever types and sizes were asked for before. Building a circuit gives the same circuit under every iteration order of hash tables.",
  quantifier=q(["schedules", "histories"], "all thread schedules (effects of every reachable parallel call and of everything its closures call); interleavings of the cached functions over the types and sizes used; three orders of hash tables"),
  why_tests_cant="A run of the tests sees a few schedules and one order of calls; a cache key that misses a parameter is wrong only after a call with another one.",
  anchors=dict(files=["src/mds.rs", "src/plonk.rs", "src/curve/curve_msm.rs", "src/fft.rs", "src/plonk_util.rs", "src/halo.rs", "src/partition.rs", "src/circuit_builder.rs"], mechanism=[
    dict(name="mds_matrix and its cache", where="src/mds.rs"),
    dict(name="parallel iterators", where="src/plonk.rs"),
    dict(name="CircuitBuilder::build", where="src/circuit_builder.rs")]),
  rules=["effects", "history"], plookup=True,
  technique="Interprocedural effect analysis over the call graph of the type-checked, monomorphic MIR; " + AI + " for cached values and hash orders",
  level_note=NOTE + " Orders and call histories are enumerated; thread schedules are covered by the absence of the effects that could make them observable.",
  explanation="Every call into the thread pool library is classified; closures it runs are followed through the call graph (generic instances resolved, std included) for writes to shared state; static items are checked for lock regions that lock again or enter the pool; entropy, environment and clock reads reachable from deterministic functions are reported with their path. Cached functions and circuit building are interpreted under several histories and hash orders and compared.",
  assumptions=BASE_ASSUME + ["rayon's indexed combinators preserve order, as documented", "foreign code called through rand's and std's interfaces does what its documentation says"]),
]
NA = [
  dict(id="P90", title="Computational soundness and zero knowledge of the proof systems",
    statement="No efficient prover convinces the verifier of a false statement, and proofs reveal nothing about the witness.",
    quantifier=q(["inputs"], "all efficient adversaries"),
    why_tests_cant="Tests can only sample honest provers.",
    anchors=dict(files=["src/plonk.rs", "src/halo.rs"], mechanism=[dict(name="generate_proof / verify_proof", where="src/plonk.rs")]),
    reason="A statement about all efficient adversaries under hardness assumptions (discrete logarithm, random oracle); no static argument about the source decides it. What the code has to do for it (checked equations, transcript binding, fresh blinding) is decided by other properties."),
  dict(id="P91", title="Endomorphism-based circuit multiplications agree with the native ones",
    statement="Multi-scalar multiplication in a circuit through the curve endomorphism returns the combination of the points with the given scalars.",
    quantifier=q(["inputs"], "all scalars and points"),
    why_tests_cant="The only test of it is ignored upstream.",
    anchors=dict(files=["src/circuit_curve.rs", "src/gates/curve_endo.rs"], mechanism=[dict(name="curve_msm_endo / CurveEndoGate", where="src/circuit_curve.rs")]),
    reason="Known not to hold and documented as unfinished by the authors (TODO in the gate, ignored test): circuit and native code consume scalar bits in opposite orders. There is no specification to decide it against; its gate's own constraints and generator are covered by the gate properties."),
  dict(id="P92", title="Field inversion terminates for every nonzero element",
    statement="Inverting a nonzero element always terminates, in a bounded number of rounds.",
    quantifier=q(["inputs"], "all nonzero elements"),
    why_tests_cant="Tests sample elements; the number of rounds depends on the bits of the value.",
    anchors=dict(files=["src/bigint/bigint_inverse.rs"], mechanism=[dict(name="nonzero_multiplicative_inverse", where="src/bigint/bigint_inverse.rs")]),
    reason="Needs a ranking argument over a data-dependent loop with gcd reasoning (the loop ends only because the modulus is prime and the element is not zero); the abstract domain has no such measure. Partial correctness of the same loop is decided with the limb arithmetic."),
  dict(id="P93", title="An accepted recursion step implies that the inner proof verifies natively",
    statement="Whatever satisfies the recursive verification circuit contains an inner proof the native verifier accepts.",
    quantifier=q(["inputs"], "all assignments"),
    why_tests_cant="The only recursion test is ignored upstream.",
    anchors=dict(files=["src/plonk_recursion.rs"], mechanism=[dict(name="recursive_verification_circuit", where="src/plonk_recursion.rs")]),
    reason="The circuit contains documented placeholders for the inner circuit's own commitments and public inputs, so the statement cannot hold yet; the equations it does state are decided as a claimed property."),
  dict(id="P94", title="Proving time and memory stay within practical bounds",
    statement="Proving and verification take time and memory nearly linear in the circuit size.",
    quantifier=q(["inputs", "programs"], "all circuits"),
    why_tests_cant="Tests do not measure it.",
    anchors=dict(files=["src/plonk.rs", "src/curve/curve_msm.rs"], mechanism=[dict(name="generate_proof", where="src/plonk.rs")]),
    reason="A quantity of execution (cost on hardware), not decidable from the source with the techniques of this family."),
]
