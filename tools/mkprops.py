#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that ids, wording and anchors stay reviewable)."""
import json, os
B = "bulletproofs/src/"
R = "relations/src/"
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "state" in kw:
        a["state"] = [{"name": n, "meaning": m} for n, m in kw["state"]]
    if "observe" in kw:
        a["observe_at"] = kw["observe"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "Verifier challenges bind every preceding part of statement and proof",
  "Every challenge the R1CS verifier and the inner-product verifier use is drawn from a transcript that has already absorbed everything the prover sent before that challenge: all scalar and vector commitments and the number of scalar commitments, every first- and second-phase commitment, which phase the proof is in, every coefficient commitment of the evaluation polynomial, the three opened scalars, and for each inner-product round the vector length and the left/right points of that round and of all earlier rounds. "
  "No absorbed item may depend on a challenge that is drawn after it, and no challenge is used under two roles.",
  ["inputs", "programs"],
  "for every constraint system, number of commitments, one- or two-phase proof and proof contents",
  "Tests only ever check honestly generated proofs; leaving a message out of the transcript changes both sides' challenges consistently and every honest proof still verifies, while a forger gains a free variable.",
  [B + "r1cs/verifier.rs", B + "inner_product_proof.rs", B + "transcript.rs"],
  [("verifier transcript sequence", B + "r1cs/verifier.rs verification_scalars_and_points"), ("inner-product challenges", B + "inner_product_proof.rs verification_scalars")],
  observe=["merlin transcript operations of the verifier", "challenge scalars feeding the verification equation"])

p("C02", "Prover and verifier replay the same transcript",
  "For every circuit, the prover and the verifier perform the same sequence of transcript operations (labels, order, absorbed objects, encodings and challenge draws), in the one-phase and in the two-phase protocol, including the commitment calls and the inner-product argument, so that an honest proof yields identical challenges on both sides.",
  ["inputs", "programs"],
  "for every number of scalar and vector commitments, both phases, every vector length",
  "The tests run a few circuits with at most a handful of commitments; a divergence that only appears with second-phase commitments, an odd number of vector commitments or a given round would stay unseen.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs", B + "inner_product_proof.rs", B + "transcript.rs"],
  [("prover transcript sequence", B + "r1cs/prover.rs prove_and_return_transcript"), ("verifier transcript sequence", B + "r1cs/verifier.rs verification_scalars_and_points")],
  observe=["sequence of (label, value) pairs absorbed on both sides"])

p("C03", "Acceptance implies the complete R1CS verification equation",
  "A proof is accepted only if one multi-exponentiation over all statement commitments, all proof points, all generators and all inner-product points is zero, with exactly the coefficients prescribed by the protocol: each commitment at its own power of the evaluation point, constraint weights for left, right, output, scalar-commitment and vector-commitment wires, the inner-product scalars on both generator vectors, and the check of the opened polynomial under a fresh unpredictable weight. "
  "No proof element or constraint is left out of, or duplicated in, that equation.",
  ["inputs", "programs"],
  "for every constraint system, every number of commitments and every proof",
  "An equation with a missing or wrong term still accepts honest proofs whenever the term vanishes or cancels for them; only malicious proofs expose it, and tests contain almost none.",
  [B + "r1cs/verifier.rs", B + "inner_product_proof.rs", B + "r1cs/mod.rs"],
  [("verification scalars and points", B + "r1cs/verifier.rs"), ("inner-product verification scalars", B + "inner_product_proof.rs verification_scalars")],
  observe=["result of Verifier::verify", "the returned scalar and point lists"])

p("C04", "Malformed or degenerate proofs are rejected with an error",
  "Verifying any deserialized proof object returns an error, in release builds too, when its lists of polynomial commitments or inner-product points do not have exactly the length the statement requires, when an unused slot is non-trivial, when the point-at-infinity is given for a mandatory first-phase commitment or for an inner-product point, or when the generators are too few; it never accepts such a proof and never crashes on it.",
  ["inputs"],
  "for every proof object that can be decoded and every statement",
  "Tests only feed well-formed proofs; the length and identity cases are reachable only by crafted proofs and partly guarded by debug-only assertions.",
  [B + "r1cs/verifier.rs", B + "inner_product_proof.rs", B + "transcript.rs"],
  [("length and validity checks", B + "r1cs/verifier.rs verification_scalars_and_points"), ("inner product length checks", B + "inner_product_proof.rs verification_scalars"), ("validate_and_append_point", B + "transcript.rs")],
  observe=["Err results of verify / verification_scalars_and_points"])

p("C05", "Batch verification accepts only if every proof verifies",
  "Batch verification accepts only if a linear combination of the individual verification equations is zero in which each proof carries its own fresh random weight, applied to all of that proof's scalars (generator part and proof-specific part alike), with all proof-specific points of all proofs included and generator coefficients of proofs of different sizes aligned to the same generators. "
  "Batching proofs of different sizes, or no proofs at all, gives the same verdict as verifying each on its own.",
  ["inputs"],
  "for every list of verification tuples, of equal or different sizes, including the empty list",
  "Tests batch two valid proofs of equal size; reused weights, unweighted parts or misaligned generators are invisible there.",
  [B + "r1cs/verifier.rs"],
  [("batch_verify", B + "r1cs/verifier.rs")],
  observe=["result of batch_verify"])

p("C06", "Encoders and decoders are exact mirror images",
  "For each serializable type (R1CS proof, inner-product proof, select-and-rerandomize path, multi-path, payment transaction, signed transaction) the encoder writes every field that the decoder reads, in the same order, with the same compression mode, under the same discriminating flag, and the reported size is the number of bytes written, so that decoding an encoding gives back the same value. "
  "Byte-level helpers of proofs follow the same layout and refuse leftover input.",
  ["inputs"],
  "for every value of each type, compressed and uncompressed, with and without optional second-phase parts",
  "Tests round-trip a few honestly produced proofs, mostly compressed and one-phase; other modes, sizes and shapes are not reached.",
  [B + "r1cs/proof.rs", B + "inner_product_proof.rs", R + "curve_tree_verifier.rs", R + "batched_curve_tree_verifier.rs", R + "coin.rs"],
  [("CanonicalSerialize / CanonicalDeserialize implementations", B + "r1cs/proof.rs; " + B + "inner_product_proof.rs; " + R + "curve_tree_verifier.rs; " + R + "coin.rs")],
  observe=["bytes produced and consumed", "serialized_size"])

p("C07", "Decoding with validation validates everything, and is canonical",
  "When a value is decoded with validation requested, every group element and scalar in it is checked for membership in its group or field: the requested validation and compression modes are handed down to every component unchanged, and the validity check of each composite type covers all of its components. "
  "Encodings are canonical: an unknown discriminant is refused, and the compact encoding is produced only for values it represents.",
  ["inputs"],
  "for every byte string offered to a decoder, in every mode",
  "Tests decode only honest encodings, for which skipping validation is unobservable.",
  [B + "r1cs/proof.rs", B + "inner_product_proof.rs", R + "curve_tree_verifier.rs", R + "batched_curve_tree_verifier.rs", R + "coin.rs"],
  [("Valid implementations and deserialize_with_mode", B + "r1cs/proof.rs; " + B + "inner_product_proof.rs; " + R + "curve_tree_verifier.rs; " + R + "coin.rs")],
  observe=["Err results of deserialize"])

p("C08", "Generators are deterministic, extendable and domain separated",
  "Generator vectors are a function of their role (left or right vector), party index and position only: creating them with a larger capacity, or enlarging them later, reproduces the same prefix. "
  "The two vectors, different parties and the Pedersen blinding base are derived from pairwise different, position-complete seeds, and the party and position asked for are the ones returned.",
  ["inputs", "histories"],
  "for every capacity, party count, enlargement history and position",
  "Tests compare a few small capacities; a seed collision or a non-monotone enlargement in other cases is not sampled, and reused generators cannot be noticed by running proofs.",
  [B + "generators.rs"],
  [("GeneratorsChain seeding", B + "generators.rs"), ("increase_capacity", B + "generators.rs"), ("aggregated iterators", B + "generators.rs")],
  observe=["generator lists", "Pedersen bases"])

p("C09", "Every commitment of a proof is hidden by its own fresh randomness",
  "Every commitment the R1CS prover sends (first- and second-phase wire and mask commitments and each polynomial coefficient commitment) includes a blinding factor that is drawn freshly and uniformly from a cryptographic generator, is used for that commitment only and multiplies the blinding base, and the mask vectors are fresh uniform vectors of full length; opened values reveal blindings only combined with an independent fresh mask.",
  ["inputs", "programs"],
  "for every circuit, witness, number of commitments and phase",
  "Missing, shared or constant blindings leave verification unaffected; tests only look at acceptance.",
  [B + "r1cs/prover.rs", B + "util.rs"],
  [("blinding generation", B + "r1cs/prover.rs prove_and_return_transcript")],
  observe=["points and scalars of the produced proof"])

p("C10", "Witness secrets held by the prover are wiped on drop",
  "Every container in which the prover stores wire values, openings, blinding factors, mask vectors and the witness polynomials is overwritten when it is dropped: each of those containers, including every secret field in it, is covered by a zeroizing destructor, and nothing takes a secret out of its container without wiping it.",
  ["programs", "histories"],
  "for every way the prover's state goes out of scope",
  "Freed memory cannot be observed by tests; removing the destructor or exempting a field changes no output.",
  [B + "r1cs/prover.rs", B + "util.rs"],
  [("ZeroizeOnDrop and Zeroizing wrappers", B + "r1cs/prover.rs; " + B + "util.rs")],
  observe=["drop glue of secret-bearing types"])

p("C11", "Values crossing threads are thread-safe by construction",
  "Every public prover, verifier, tree, parameter and proof type is shareable or sendable between threads only if all of its parts are: no manual promise of thread safety covers a component (including stored callbacks and caller-supplied transcripts) that is not itself thread-safe.",
  ["schedules", "programs"],
  "for every instantiation and every interleaving of safe code using the public API",
  "Data races need particular schedules and particular caller types; tests use only thread-safe transcripts and callbacks.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs", R + "curve_tree.rs"],
  [("Send/Sync implementations", B + "r1cs/prover.rs")],
  observe=["trait implementations visible to safe code"])

p("C12", "Prover and verifier number and flatten constraints identically",
  "For every sequence of constraint-system calls the prover and the verifier hand out the same variables, count the same multipliers, commitments and padding, record the same constraints (including those that bind a multiplication's inputs and output), and flatten them with the same weights into the same left, right, output, scalar-commitment and vector-commitment vectors, with the constants contributing exactly on the verifier side.",
  ["programs", "histories"],
  "for every sequence of allocate, multiply, constrain, commit and deferred-constraint calls in both phases",
  "Tests use a few fixed gadget sequences; half-filled multipliers, two-phase systems and mixed commitments are hardly combined.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs", B + "r1cs/constraint_system.rs"],
  [("ConstraintSystem implementations", B + "r1cs/prover.rs; " + B + "r1cs/verifier.rs"), ("flattened_constraints", B + "r1cs/prover.rs; " + B + "r1cs/verifier.rs")],
  observe=["variables returned", "flattened weight vectors"])

p("C13", "Linear-combination arithmetic is exact",
  "Addition, subtraction, negation, scaling, summation, collection and conversion of constraint variables, constants and linear combinations denote exactly the corresponding operation on the values they stand for, for every operand combination and order.",
  ["inputs", "programs"],
  "for every combination of operands of every operator implementation",
  "Only some operator/operand-type pairs are used by the tests; a sign or order slip in an unused one is silently compiled into wrong circuits.",
  [B + "r1cs/linear_combination.rs"],
  [("operator implementations", B + "r1cs/linear_combination.rs")],
  observe=["terms of the resulting linear combination"])

p("C14", "Circuit shape never depends on the witness",
  "The constraint gadgets issue the same sequence of allocations, multiplications and constraints, with the same public coefficients, whatever the prover's witness values are, and the same whether they run on the prover (with witness) or on the verifier (without); witness values only enter as assignments.",
  ["inputs", "programs"],
  "for every witness value, honest or not, of every gadget",
  "A branch on a rare witness value (identity, zero, special digit) is not hit by random tests; then prover and verifier build different circuits.",
  [R + "range_proof.rs", R + "select.rs", R + "lookup.rs", R + "curve.rs", R + "rerandomize.rs", R + "single_level_select_and_rerandomize.rs"],
  [("gadget functions", "relations/src")],
  observe=["calls on the constraint system"])

p("C15", "The range proof confines a value to exactly the stated bit range",
  "The range-proof gadget's constraints are satisfiable for a linear combination exactly when its value lies between 0 and 2^n - 1 for the given bit length n: each of n bits is constrained to be zero or one, and their weighted sum, with weight 2^i for bit i, equals the value.",
  ["inputs"],
  "for every field element and every bit length below the field size",
  "Tests try random values near a few bit lengths; under-constrained bits are only exposed by a dishonest assignment, which tests through the honest prover cannot make.",
  [R + "range_proof.rs"],
  [("range_proof", R + "range_proof.rs")],
  observe=["constraints issued"])

p("C16", "Selection proves membership among all children of the node",
  "The select gadget's constraints force the selected value to equal one of the given candidates: the product of the differences with all candidates, none omitted, is constrained to zero.",
  ["inputs"],
  "for every number of candidates and every value",
  "Tests show honest selections pass; an omitted candidate or an unconstrained product shows only for particular positions or dishonest values.",
  [R + "select.rs"],
  [("select", R + "select.rs")],
  observe=["constraints issued"])

p("C17", "Table lookups are bound to constrained bits",
  "The windowed table lookup forces the looked-up coordinate values to be the table entry addressed by bits that are each constrained to be 0 or 1 (with the required product of bits constrained as their product), for every one of the addressable entries, and the same bits address both coordinates.",
  ["inputs"],
  "for every table, every index and every assignment",
  "Tests look up honest indices in random tables; missing bit or product constraints are only exposed by dishonest assignments.",
  [R + "lookup.rs"],
  [("lookup gadgets", R + "lookup.rs")],
  observe=["constraints issued"])

p("C18", "Curve membership and addition gadgets enforce the group law",
  "The curve gadgets' constraints force allocated coordinates to satisfy the curve equation of the configured curve, and force the result of an incomplete addition to be the chord sum of its two distinct inputs, excluding equal abscissas, for every short-Weierstrass curve, including those with a non-zero linear coefficient.",
  ["inputs"],
  "for every point pair, assignment and curve parameters",
  "Tests use honest points on curves whose linear coefficient is zero; wrong coefficients and dropped constraints do not show.",
  [R + "curve.rs"],
  [("curve_check, checked_curve_addition, incomplete_curve_addition", R + "curve.rs")],
  observe=["constraints issued"])

p("C19", "Rerandomization adds exactly a multiple of the blinding base",
  "The rerandomization gadget's constraints force the output point to be the input point plus the fixed-base multiple encoded by its window digits: every window's table point is looked up from that window's table and added to the accumulator, from the first window to the last, and the accumulated offset is finally added to the input commitment, with no window left unconstrained.",
  ["inputs"],
  "for every commitment, every rerandomization scalar and every assignment of the windows",
  "Tests run honest rerandomizations, for which an unconstrained or skipped window is invisible.",
  [R + "rerandomize.rs", R + "lookup.rs", R + "curve.rs"],
  [("re_randomize and table construction", R + "rerandomize.rs")],
  observe=["constraints issued", "window tables"])

p("C20", "One level of the path binds child, selection and rerandomization together",
  "At each level the circuit selects the child's x-coordinate from all children of the committed parent, binds it to a point on the child curve, and constrains the public rerandomized commitment to be that point plus a multiple of the child curve's blinding base; the public commitment enters the transcript before any challenge. "
  "The single and the batched variant enforce this for each of the selected children.",
  ["inputs"],
  "for every level, branching factor, batch size, child position and assignment",
  "Honest paths satisfy a circuit with any of these links missing; only a forged path exposes it.",
  [R + "single_level_select_and_rerandomize.rs"],
  [("single_level_select_and_rerandomize and its batched variant", R + "single_level_select_and_rerandomize.rs")],
  observe=["constraints issued", "transcript operations"])

p("C21", "Path verification ties the leaf to the verifier's own root",
  "Verifying a select-and-rerandomize path starts from the root of the verifier's own tree, alternates between the two curves for exactly the height of that tree, uses each level's commitment as both the output of the level above and the parent of the level below, and ends in the returned leaf commitment; a path of any other length is refused.",
  ["inputs"],
  "for every tree height (even and odd), every path object supplied by a prover",
  "Tests verify honest paths of the right length on one or two heights; a skipped level, a root taken from the proof or a short path needs a forged path.",
  [R + "curve_tree_verifier.rs", R + "curve_tree.rs"],
  [("select_and_rerandomize_verification_commitments, even/odd verifier gadgets", R + "curve_tree_verifier.rs")],
  observe=["constraints issued per level", "returned commitments"])

p("C22", "Batched path verification ties every leaf to the roots",
  "The batched path verification enforces, for each of the batched leaves and at every level, the same chain from the verifier's own roots through all levels to the returned leaf commitments as single-path verification does, with the sum of the parents opened consistently and no path, level or tree skipped.",
  ["inputs"],
  "for every batch size, tree height and multi-path object",
  "Tests verify one honest batch; omitted paths or levels are invisible for honest provers.",
  [R + "batched_curve_tree_verifier.rs", R + "single_level_select_and_rerandomize.rs"],
  [("batched verification commitments and gadgets", R + "batched_curve_tree_verifier.rs")],
  observe=["constraints issued per level", "returned commitments"])

p("C23", "Prover-side path gadgets mirror the verifier's",
  "For every tree, leaf index and batch the prover commits to the same parents, in the same order and dimensions, and issues the same level gadgets with the same parameters as the verifier does for the produced path, so that honest proofs verify; the path handed out contains exactly the rerandomized commitments used.",
  ["inputs", "programs"],
  "for every tree height, leaf index, tree index and batch size",
  "Tests cover two or three tree shapes; an order or parameter divergence at other heights or positions is not reached.",
  [R + "curve_tree_prover.rs", R + "batched_curve_tree_prover.rs", R + "curve_tree_verifier.rs", R + "batched_curve_tree_verifier.rs"],
  [("prover gadgets and path construction", R + "curve_tree_prover.rs; " + R + "batched_curve_tree_prover.rs")],
  observe=["commitment and gadget call sequence on both sides"])

p("C24", "The tree root commits to all leaves in order",
  "Building a curve tree places every given element, in order, at its position; each inner node commits to the x-coordinates of all of its children in their order, under the generators of the tree's own curve for that level, up to the root, and no leaf is dropped when the number of leaves is not a multiple of the branching factor; every node reports its own height and number of leaves.",
  ["inputs"],
  "for every set size, branching factor, height and number of trees",
  "Tests build trees of a few sizes; partial chunks at higher levels and other shapes are not reached, and a dropped or reordered leaf shows only for that leaf.",
  [R + "curve_tree.rs", R + "single_level_select_and_rerandomize.rs"],
  [("CurveTree::from_set and node construction", R + "curve_tree.rs")],
  observe=["node commitments", "height"])

p("C25", "Leaf index selects the same child at every level",
  "For a given leaf index the prover selects at each level the child whose subtree contains that leaf: the digits of the index in base of the branching factor, from the most significant at the root to the least significant at the leaf.",
  ["inputs"],
  "for every index, branching factor and height",
  "Tests select index 0 or one small index, for which many digit mistakes coincide.",
  [R + "curve_tree.rs", R + "curve_tree_prover.rs"],
  [("node lookup and child_index computation", R + "curve_tree.rs; " + R + "curve_tree_prover.rs")],
  observe=["selected children and witnesses"])

p("C26", "Payments balance and spend only owned coins",
  "The payment circuit on the verifier enforces that both minted amounts are in 64-bit range, that the sum of minted amounts equals the sum of spent amounts, that each spent coin is the rerandomized leaf proven to be in the tree, and that each spent coin's tag is the hash of the corresponding public key of the transaction; prover and verifier issue the same statements in the same order, and the coin handed out by minting opens the minted commitment and carries the hash of the receiver's randomized key.",
  ["inputs"],
  "for every transaction, amounts, keys and indices",
  "Tests run one honest payment; missing balance, range or tag constraints are only exposed by dishonest ones.",
  [R + "coin.rs"],
  [("mint/spend/pour gadgets", R + "coin.rs")],
  observe=["constraints issued by the payment verifier"])

p("C27", "A payment is accepted only with both signatures over its exact bytes",
  "Accepting a signed transaction requires both signatures, each under the corresponding public key contained in the transaction, to verify over exactly the transmitted transaction bytes, and those bytes are the ones that are decoded, fully validated and proof-checked.",
  ["inputs"],
  "for every signed transaction supplied by an adversary",
  "Tests verify honestly signed transactions only; an ignored verification result passes them.",
  [R + "coin.rs"],
  [("SignedTx::verification_gadget and signature checks", R + "coin.rs")],
  observe=["acceptance of a signed transaction"])

p("C28", "Parallel and serial builds compute the same results",
  "With and without the parallel feature every public operation of both crates computes the same values, performs the same transcript and constraint operations in the same order and returns the same errors; parallel tasks share no mutable state.",
  ["configurations", "schedules"],
  "for both feature configurations and every scheduling of the parallel tasks",
  "The tests run in one configuration per build and compare nothing across the two.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs", R + "curve_tree.rs", R + "coin.rs", R + "curve_tree_prover.rs", R + "curve_tree_verifier.rs"],
  [("cfg(feature = parallel) blocks", "both crates")],
  observe=["computed terms in both configurations"])

p("C29", "Generator capacity is checked before generators are used",
  "Proving and verifying return an error instead of a proof or a verdict whenever the supplied generators are fewer than the padded circuit needs; truncated generator lists are never used silently.",
  ["inputs", "programs"],
  "for every capacity and every circuit size in both phases",
  "Tests use ample generators; a truncated zip would silently commit to a prefix only.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs"],
  [("gens_capacity checks", B + "r1cs/prover.rs; " + B + "r1cs/verifier.rs")],
  observe=["InvalidGeneratorsLength results"])

p("C30", "Vector commitments occupy pairwise distinct polynomial degrees",
  "For any number of vector commitments the degrees assigned to the left and right parts of each commitment, of the wire commitments and of the masks make only matching left/right pairs meet at the target degree, so that the target coefficient is exactly the sum of the claimed inner products; prover and verifier use the same assignment and the polynomial's multiplication and evaluation implement it for all degrees.",
  ["inputs", "programs"],
  "for every number of vector commitments",
  "Tests use up to a few commitments; a collision for another count breaks soundness or completeness only there.",
  [B + "r1cs/mod.rs", B + "util.rs", B + "r1cs/prover.rs", B + "r1cs/verifier.rs"],
  [("op_splits", B + "r1cs/mod.rs"), ("special inner product and evaluation", B + "util.rs")],
  observe=["degree assignment", "polynomial coefficients"])

p("C31", "The inner-product prover folds exactly as the verifier unfolds",
  "For every power-of-two length the inner-product prover's left and right points and folded vectors are those the protocol prescribes for the given generator factors and challenges, so that the final scalars satisfy the verifier's single-equation check.",
  ["inputs"],
  "for every power-of-two vector length, every factor and vector contents",
  "Tests run five lengths with honest data; first-round special handling and factor placement for others are not covered.",
  [B + "inner_product_proof.rs"],
  [("InnerProductProof::create", B + "inner_product_proof.rs")],
  observe=["L, R points and final scalars as functions of inputs"])

p("C32", "Timing does not reveal witness values",
  "The time and memory-access pattern of proving do not depend on secret witness values.",
  ["inputs"], "for every pair of witnesses of the same circuit",
  "Tests measure no timing.",
  [B + "r1cs/prover.rs", R + "rerandomize.rs"], [("prover arithmetic", B + "r1cs/prover.rs")])

p("C33", "Accepted proofs imply knowledge of a witness",
  "Any efficient prover whose proofs are accepted knows a satisfying witness, under the discrete-logarithm and random-oracle assumptions.",
  ["inputs", "histories"], "for every efficient adversary",
  "Tests only run honest provers.",
  [B + "r1cs/verifier.rs"], [("the protocol as a whole", B)])

p("C34", "A coin cannot be spent twice",
  "No two accepted payments spend the same coin.",
  ["histories"], "for every history of accepted payments",
  "The repository has no ledger; tests verify single payments.",
  [R + "coin.rs"], [("public keys revealed by a payment", R + "coin.rs")])

p("C35", "Honest proofs verify, and every single constraint counts",
  "A proof produced by the prover for an assignment that satisfies all constraints is accepted by the verifier holding the same statement, in one-phase and two-phase circuits and with any mix of scalar and vector commitments, allocated, multiplied and padded multipliers; if the assignment violates even one constraint (all others being satisfied), the proof produced for it is not accepted.",
  ["inputs", "programs"],
  "for every witness, constraint coefficient, blinding and challenge value in each circuit shape",
  "Tests sample values for a handful of circuit shapes; a term that vanishes for small circuits, single-phase proofs or full padding, or a constraint that is silently dropped, does not show.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs", B + "inner_product_proof.rs"],
  [("prover closed form against verification equation", B + "r1cs/prover.rs prove; " + B + "r1cs/verifier.rs verify")],
  observe=["result of Verifier::verify on the prover's output"])

p("C36", "Honest witnesses satisfy every gadget",
  "For every honest witness (a value within the range, an index within the table, points of the curve in general position, any scalar of generic value, any selected child) each constraint gadget completes on the prover and the assignments it computes for its own wires satisfy every gate and constraint it issues, so that an honest prover is never unable to prove a true statement.",
  ["inputs"],
  "for every witness of the relation and every size",
  "Tests draw a few random witnesses for one size; an assignment that is wrong for a rare digit, bit position, scalar width or child position is not drawn.",
  [R + "range_proof.rs", R + "lookup.rs", R + "curve.rs", R + "rerandomize.rs", R + "single_level_select_and_rerandomize.rs"],
  [("assignments passed to allocate and allocate_multiplier", "relations/src")],
  observe=["assignments of the wires a gadget allocates"])

p("C37", "Published commitments are hidden by their own fresh randomness",
  "Every rerandomized commitment on a path, every rerandomized leaf and every minted coin commitment that a prover publishes is blinded by the blinding base times a scalar drawn fresh from the caller's or the system's random generator, so that the blindings of all commitments published together are jointly uniform and no two of them are linked; the key of a minted coin is randomized by a fresh scalar of its own.",
  ["inputs"],
  "for every path, batch and payment",
  "Verification succeeds whatever the blindings are; a scalar that is reused, fixed or left out passes every test and only links or reveals the spender's leaf.",
  [R + "curve_tree_prover.rs", R + "batched_curve_tree_prover.rs", R + "coin.rs"],
  [("rerandomization scalars of path and coin commitments", R + "curve_tree_prover.rs; " + R + "batched_curve_tree_prover.rs; " + R + "coin.rs")],
  observe=["published commitments of a path or payment"])

p("C38", "Missing assignments and failing callbacks abort",
  "A prover asked to allocate a wire or a multiplier without its value returns an error and stays exactly as it was, in the first and in the second phase; an error returned by any deferred callback makes proving and verification return an error instead of a proof or a verdict, and every deferred callback is run exactly once before either; no function of the two crates throws away the error of a call that can fail.",
  ["inputs", "histories"],
  "for every prover state, every number of deferred callbacks and every outcome of theirs",
  "Tests allocate with values and use callbacks that succeed; an absorbed error shows up only when something has already gone wrong.",
  [B + "r1cs/prover.rs", B + "r1cs/verifier.rs"],
  [("allocation without a value, deferred callbacks", B + "r1cs/prover.rs; " + B + "r1cs/verifier.rs")],
  observe=["error of allocate, prove, verify"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
