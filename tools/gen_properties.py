#!/usr/bin/env python3
# Source of properties.jsonl (one place to edit; run to regenerate).
import json, sys, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":"tree","meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[o.strip() for o in observe.split(";")]
    a["hook_needed"]="cfg(verif_hooks) read access to the constraints a verifier holds" if hook else None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
R="src/r1cs/"; G="src/r1cs/gadgets/"; HC=G+"helper_constraints/"
p("P01","Completeness: every satisfied constraint system proves and verifies",
 "For every constraint system (any number of committed values, multiplication gates including none or one, linear constraints with repeated or zero-weight terms, and first- and second-phase variables and challenges) and every assignment that satisfies it, proving succeeds and the proof is accepted by a verifier that builds the same system over the returned commitments, in whatever representation it holds them (also when a commitment is the identity). This holds for any generator vectors at least as long as the gate count rounded up to a power of two, for any transcript label or shared prior transcript content, and after the proof has been serialised and deserialised.",
 ["inputs","histories","configurations"],"all circuits, witnesses, generator lengths, transcripts and orders of commit/allocate/multiply/constrain/randomised-phase calls","tests prove a handful of fixed circuits; padding, the two phases, half-allocated gates and weight flattening interact per shape",
 [R+"prover.rs",R+"verifier.rs",R+"constraint_system.rs","src/ipp.rs","src/utils/vector_poly.rs"],[("Prover::prove",R+"prover.rs"),("Verifier::verify",R+"verifier.rs"),("IPP::create_ipp","src/ipp.rs")],observe="Result of verification")
p("P02","Soundness: proofs of unsatisfied constraint systems are rejected",
 "For every constraint system and every assignment that violates at least one linear constraint (in either phase, however small its weight in the system) or at least one multiplication gate, a proof produced from that assignment, by the library's prover or by any prover that otherwise follows the protocol, is rejected by the verifier. The verdict must be the same on every repetition of the verification.",
 ["inputs","programs"],"all circuits and all assignments violating exactly one or several constraints or gates, including gates the library's own prover cannot violate","a test checks one or two wrong witnesses; a verifier that skips one constraint, gate, padding slot or phase accepts wrong witnesses only there",
 [R+"verifier.rs",R+"prover.rs"],[("Verifier::verify and flattened_constraints",R+"verifier.rs"),("IPP::verification_scalars","src/ipp.rs")],observe="Result of verification")
p("P03","Non-malleability: altered proofs, statements or contexts are rejected",
 "Starting from any accepted proof, changing any single component of it (any group element, scalar, or round message of the inner-product argument, including swaps, negations, shifts, and coordinated shifts of two components that would cancel if a check were dropped or combined with a known weight), any commitment, any public constant of the statement, any generator the circuit uses, or the transcript label or earlier transcript content makes verification fail. Verification never accepts on one run and rejects on another.",
 ["inputs","programs"],"all accepted proofs and all single-component and compensating multi-component alterations","tests never tamper with proofs; each field is bound by a different term of the batched equation",
 [R+"verifier.rs",R+"proof.rs","src/ipp.rs","src/transcript.rs"],[("batched verification equation",R+"verifier.rs"),("transcript absorption","src/transcript.rs")],observe="Result of verification")
p("P04","Fiat-Shamir transcript: every challenge depends on all prior messages",
 "Prover and verifier absorb the same messages in the same order: domain separators, every commitment and their count, all first-phase commitments, the phase marker, all second-phase commitments, the polynomial commitments, the evaluated scalars and the inner-product messages; every challenge is drawn only after all messages the protocol places before it. Consequently proofs interoperate in both directions with an independent implementation of the documented protocol, the transcripts of prover and verifier end in the same state, and that state changes when any absorbed message changes.",
 ["inputs","configurations"],"all circuits, phases and transcript contexts","a missing or reordered absorption on both sides is invisible to round-trip tests yet permits forgeries",
 ["src/transcript.rs",R+"prover.rs",R+"verifier.rs","src/ipp.rs"],[("TranscriptProtocol","src/transcript.rs"),("absorption order",R+"prover.rs and verifier.rs")],observe="caller's transcript after proving/verifying; proof bytes")
p("P05","Hiding: proof elements are masked with fresh independent randomness",
 "In every proof, each commitment to wires, each commitment to polynomial coefficients and each commitment to blinding vectors carries its own fresh random blinding, no blinding is zero, reused within a proof or repeated across proofs, and the blinding vectors have fresh non-zero entries in every position of both phases. Two proofs of the same statement with the same witness share no masked component, and auxiliary commitments made on the caller's behalf use fresh blinding each time.",
 ["inputs","histories"],"all circuits, witnesses and repetitions","verification accepts unblinded proofs just as well, so no accept/reject test can notice lost zero-knowledge",
 [R+"prover.rs",G],[("blinding factors in Prover::prove",R+"prover.rs"),("FieldElement::random at auxiliary commits",G)],observe="proof components under probing generators")
p("P06","Malformed or hostile proofs never crash and never pass verification",
 "For every proof obtained by deserialising arbitrary or corrupted data (missing, extra or unequal numbers of round messages, points that are not on the curve or are degenerate encodings, out-of-range or zero scalars) and every list of commitments containing such points, verification returns an error: it neither panics nor accepts.",
 ["inputs","fault_sequences"],"all byte strings offered as proofs and all commitment lists","hostile inputs form an unbounded set and tests only use honest proofs",
 [R+"verifier.rs",R+"proof.rs","src/ipp.rs"],[("Verifier::verify",R+"verifier.rs"),("IPP::verification_scalars","src/ipp.rs")],observe="Result or panic of verification")
p("P07","Inner-product argument: complete, binding and consistent for all sizes",
 "For every power-of-two length including one, all scalar vectors, generator vectors and per-generator factors, an inner-product proof for the vectors verifies against the commitment to them and their inner product; it is rejected for any other commitment, length, factor, generator, transcript or altered proof value; and the verifier's folded scalars equal those obtained by folding round by round with the transcript's challenges. Proofs or vectors of the wrong length make verification return an error, not panic.",
 ["inputs","programs"],"all lengths, vectors, factors and alterations","two fixed vectors of length 4 and 8 with unit left factors are tested",
 ["src/ipp.rs"],[("create_ipp / verify_ipp / verification_scalars","src/ipp.rs")],observe="Result of verify_ipp, returned scalars")
p("P08","Constraint-system building: prover and verifier stay in lockstep",
 "For every sequence of commit, single-variable allocation, gate allocation, multiplication, constraint and randomised-phase calls, prover and verifier hand out the same variables, a single-variable allocation alternately opens a gate and fills its right side in both phases, reported gate and constraint counts match the calls made, and a half-filled gate is closed when a phase ends. The prover evaluates any linear combination to its value under the current assignment, every gate output equals the product of its inputs, the verifier evaluates to nothing, the prover reports a missing assignment instead of inventing one and leaves its state unchanged, and callback errors propagate.",
 ["inputs","histories"],"all call sequences","state machine over call histories; tests use one fixed order",
 [R+"prover.rs",R+"verifier.rs",R+"constraint_system.rs"],[("ConstraintSystem impls",R+"prover.rs"),("ConstraintSystem impls",R+"verifier.rs")],observe="returned variables, counts, evaluate_lc")
p("P09","Linear-combination arithmetic denotes the same linear function",
 "For all linear combinations, variables and scalars, addition, subtraction, negation, scaling, accumulation, conversion and collection produce a combination whose value under every assignment is the corresponding arithmetic result. Simplification preserves that value and yields each variable at most once.",
 ["inputs"],"all expressions over all variables, scalars and assignments","infinitely many expressions; operators are only used incidentally in tests",
 [R+"linear_combination.rs"],[("operator impls and simplify",R+"linear_combination.rs")],observe="terms of the combination")
p("P10","Vector-polynomial helpers agree with polynomial arithmetic",
 "For all coefficient vectors and evaluation points, evaluating a vector polynomial equals the coefficient-wise polynomial value, and the scalar polynomial returned by an inner product of two vector polynomials evaluates, at every point, to the inner product of the two evaluations (for the special form: whenever the documented zero coefficients hold). Each returned coefficient equals the convolution of the inputs.",
 ["inputs"],"all vectors, lengths and points","untested directly; a wrong coefficient only matters for some shapes",
 ["src/utils/vector_poly.rs"],[("VecPoly1/VecPoly3/Poly2/Poly6","src/utils/vector_poly.rs")],observe="returned polynomials")
p("P11","Bound check: a proof exists exactly for values within the bounds",
 "For all 64-bit lower and upper bounds with lower <= upper and every bit width up to 64 large enough for their difference, a proof for any value within the bounds (inclusive) verifies, and no assignment of auxiliary values lets a committed value outside the bounds, including values that wrap around the field, satisfy the verifier's constraints. The range building block (a value below two to the n) holds exactly for such values for every n up to 250. A proof made for one pair of bounds is rejected for another pair that excludes the value.",
 ["inputs","programs"],"all bounds, values, bit widths and cheating auxiliary assignments","tests use one random in-range value; boundary values, large values and cheating witnesses are not sampled",
 [G+"bound_check.rs",HC+"positive_no.rs"],[("bound_check_gadget",G+"bound_check.rs"),("positive_no_gadget",HC+"positive_no.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P12","Set membership: a proof exists exactly for members of the set",
 "For every set and committed value, both set-membership variants (product of differences; one-hot selection over distinct 64-bit elements) yield an accepted proof when the value is in the set, for every position and set size. When it is not, no assignment of auxiliary values satisfies the verifier's constraints and honest-looking proof attempts are rejected. The building blocks (a value is a bit, values sum to a public integer, weighted selection of items) hold exactly when their statement does, on their own.",
 ["inputs","programs"],"all sets, values, positions and cheating auxiliary assignments","tests use one set and one member",
 [G+"set_membership.rs",G+"set_membership_alt.rs",HC+"bit.rs",HC+"vector_sum.rs"],[("set_membership_gadget",G+"set_membership.rs"),("vector_product_gadget",G+"set_membership_alt.rs"),("bit_gadget",HC+"bit.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P13","Non-membership and non-zero proofs exist exactly when true",
 "For every set and value, a non-membership proof is accepted when the value differs from all elements and for no auxiliary assignment when it equals any one of them, wherever it is in the set. For every value, a non-zero proof is accepted when the value is not zero in the field and for no auxiliary assignment when it is zero. The building blocks (second value is the inverse of the first, value equals a public scalar) hold exactly when their statement does, on their own.",
 ["inputs","programs"],"all sets, values, positions and cheating auxiliary assignments","tests use one set and one non-member",
 [G+"set_non_membership.rs",G+"non_zero.rs",HC+"non_zero.rs"],[("set_non_membership_gadget",G+"set_non_membership.rs"),("is_nonzero_gadget",HC+"non_zero.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P14","Hamming distance: a proof exists exactly for the true count of differences",
 "For all vectors of hidden values and public values of equal length, a proof is accepted when the claimed count equals the number of positions at which they differ, and for no other claimed count does any auxiliary assignment satisfy the verifier's constraints. Vectors of different length are refused with an error.",
 ["inputs","programs"],"all vectors, patterns of differences, claimed counts and cheating auxiliary assignments","tests only run the honest direction for one pattern",
 [G+"hamming_distance.rs",HC+"vector_sum.rs"],[("hamming_distance_gadget",G+"hamming_distance.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P15","MiMC: hash and circuit compute the same documented function",
 "For all inputs, round counts and constants, the hash equals the documented Feistel recurrence, a preimage proof for the true image verifies, and for fixed committed inputs no assignment of auxiliary values satisfies the verifier's constraints for any other image. Wrong numbers of inputs or blindings are refused with an error.",
 ["inputs","programs"],"all inputs, rounds and constants","hash and circuit are separate code; tests compare them at one point",
 [HC+"mimc.rs",G+"mimc.rs"],[("mimc / mimc_gadget",HC+"mimc.rs")],observe="hash value; verification result; constraints held by the verifier",hook=True)
p("P16","Poseidon hash equals its specification for every width and S-box",
 "For all inputs, supported widths, S-boxes and round splits, the permutation and the 2:1, 4:1 and 8:1 hashes equal the documented construction (add round key, S-box on all or only the last element, multiply by the matrix; zero in the first slot, second output returned) computed from the published constants. The constants parse to field elements, the matrices are invertible with no zero sub-determinant, and unsupported widths or round counts are refused.",
 ["inputs","configurations"],"all inputs, widths, S-boxes and round splits","tests never compare the hash to an independent implementation; one changed constant in thousands goes unnoticed",
 [HC+"poseidon.rs",G+"poseidon_constants.rs"],[("Poseidon_permutation and hashes",HC+"poseidon.rs"),("constants",G+"poseidon_constants.rs")],observe="hash outputs, parameters")
p("P17","Poseidon circuits accept exactly the native hash value",
 "For all inputs, widths, S-boxes and round splits (inverse S-box: whenever no S-box input is zero), the permutation, 2:1, 4:1 and 8:1 circuits evaluate to the native result and proofs of preimage knowledge verify. For fixed committed inputs no assignment of auxiliary variables satisfies the verifier's constraints for a different output, and with a zero input to the inverse S-box there is no satisfying assignment at all. The static commitments made for the padding have the documented values (zero, then the padding constant, then zeros) on both sides, also when a 2:1 or 4:1 hash circuit runs over a wider permutation.",
 ["inputs","programs"],"all inputs, configurations, wrong outputs and cheating auxiliary assignments","tests run the honest direction at one input; an under-constrained wire is invisible to them",
 [HC+"poseidon.rs",G+"poseidon_hash.rs"],[("synthesize_*_sbox and Poseidon_permutation_constraints",HC+"poseidon.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P18","Sparse Merkle trees behave as persistent maps with sound proofs",
 "For every history of updates to a 4-ary or 8-ary tree of any depth, looking up any index in the current or any earlier root (all sharing one store) returns the value last written there at that root, or zero if none; the root depends only on the resulting contents, not on the order of updates, and equals the hash tree over all leaves. The membership proof returned for an index verifies for exactly the stored value, index and root, and is rejected for any other value, index, root, altered node or wrong length, without panicking.",
 ["inputs","histories"],"all update histories, depths, indices and proofs","map behaviour over histories; tests insert a run of consecutive indices once",
 [HC+"sparse_merkle_tree_4_ary.rs",HC+"sparse_merkle_tree_8_ary.rs","src/utils/hash_db.rs"],[("VanillaSparseMerkleTree_4",HC+"sparse_merkle_tree_4_ary.rs"),("VanillaSparseMerkleTree_8",HC+"sparse_merkle_tree_8_ary.rs")],state="tree root and hash database",observe="get/update/verify_proof results")
p("P19","Merkle inclusion proofs hold exactly for the committed leaf and index",
 "For every 4-ary and 8-ary tree, depth and leaf, an inclusion proof built from the tree's membership proof verifies for every position of the path at every level. It is rejected, and no auxiliary assignment satisfies the verifier's constraints, when the committed leaf or index is not the one under the given root (including indices outside the tree and index bits that are not bits), or when the number of committed path nodes does not match the depth.",
 ["inputs","programs"],"all trees, depths, leaves, positions and cheating auxiliary assignments","selector arithmetic has 4 or 8 cases per level and depth; tests use one leaf",
 [G+"sparse_merkle_tree_4_ary.rs",G+"sparse_merkle_tree_8_ary.rs",HC+"sparse_merkle_tree_4_ary.rs",HC+"sparse_merkle_tree_8_ary.rs"],[("vanilla_merkle_merkle_tree_4_verif_gadget",HC+"sparse_merkle_tree_4_ary.rs"),("vanilla_merkle_merkle_tree_8_verif_gadget",HC+"sparse_merkle_tree_8_ary.rs")],observe="verification result; constraints held by the verifier",hook=True)
p("P20","Randomizer: a proof exists exactly when the trees differ as claimed",
 "For every original tree and every modified tree that differs from it only at the public indices, in any number and order, the proof verifies. It is rejected when the modified tree also differs elsewhere, when an original value or path is not the one under the committed original root, or for a different modified tree or set of indices.",
 ["inputs","programs"],"all trees, depths, index sets and modifications","tests run the honest direction for one tree",
 [G+"randomizer.rs"],[("randomizer_gadget",G+"randomizer.rs")],observe="verification result")
p("P21","Gadgets compose: joint proofs hold exactly when every part holds",
 "Any sequence of gadgets placed in one constraint system, in any order, interleaved with the caller's own commitments, odd single-variable allocations and constraints, yields an accepted proof when all parts are true, without panicking, and a rejected one when any single part is false. The same holds for several constraint systems proved over the same commitments and blindings.",
 ["inputs","histories"],"all gadget sequences, truth patterns and surrounding allocations","tests compose one fixed pair",
 [G,R+"prover.rs",R+"verifier.rs","tests/multiple_constraint_systems.rs"],[("prove_*/verify_* sub-protocol functions",G)],observe="verification result")
p("P22","Generator vectors: too few is an error, surplus is irrelevant",
 "For every circuit and every pair of lengths of the two generator vectors, proving and verifying, directly or through any gadget's one-call functions, return the invalid-generators error exactly when either vector is shorter than the gate count rounded up to a power of two, and otherwise succeed. Surplus generators do not affect the verdict and prover and verifier may hold vectors of different surplus.",
 ["inputs","configurations"],"all circuits and generator lengths","tests always pass a large power of two",
 [R+"prover.rs",R+"verifier.rs",G],[("length checks in prove/verify",R+"prover.rs and verifier.rs")],observe="Result of prove and verify")
p("P23","Gadget interface: blindings honoured, inputs validated, order documented",
 "When the caller supplies blindings, the returned commitments to the caller's values are exactly the Pedersen commitments with those blindings, in the documented position; when only a random generator is supplied, blindings come from it; when neither is supplied, an error is returned. Wrong numbers of inputs, blindings or commitments are refused with an error rather than a panic or acceptance.",
 ["inputs"],"all gadgets, inputs, blindings and list lengths","each gadget repeats this logic; tests use one calling convention",
 [G,"src/errors.rs"],[("prove_*/verify_* functions",G)],observe="returned commitments, Result")
p("P24","Proof serialisation is lossless and stable",
 "For every proof, serialising and deserialising yields a proof that verifies exactly like the original and serialises to the same text again, with every component preserved.",
 ["inputs"],"all proofs","tests never serialise proofs",
 [R+"proof.rs","src/ipp.rs"],[("Serialize/Deserialize for R1CSProof and InnerProductArgumentProof",R+"proof.rs")],observe="serialised text, verification result")
p("P25","Utilities: generators, challenges, index selection and store are exact",
 "For all prefixes and counts the generator list is deterministic, prefix-stable, free of duplicates and identity, and derived by hashing prefix and 1-based index; derived challenges depend on every input and all earlier state. Index selection from a nonce is deterministic, within range, duplicate-free and of the requested size whenever the documented stream provides it; randomising data changes exactly the selected positions to the hash of the old value and reports the old values; the in-memory store returns the last value inserted for a key and a not-found error naming any absent key.",
 ["inputs","histories"],"all prefixes, counts, nonces, sizes and store histories","only used incidentally by tests",
 ["src/utils/mod.rs","src/utils/hash_db.rs",G+"randomizer.rs"],[("get_generators / gen_challenges","src/utils/mod.rs"),("InMemoryHashDb","src/utils/hash_db.rs"),("get_indices_to_modify / get_randomized_data",G+"randomizer.rs")],observe="returned values")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
