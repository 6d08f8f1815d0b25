"""Technique and assurance note per property, and the reasons for properties that are not claimed."""
AI = "abstract interpretation of the typed IR (THIR) to closed-form dataflow summaries; "
BASE = (" Assumes the third-party primitives (arkworks fields/groups, merlin, rayon) behave as documented, and the analyser's models of std/arkworks calls. "
        "A construct the analyser does not understand makes the obligation undecided (reported, not an alarm).")
CI = AI + "the gadget is interpreted on a recording constraint system and its gates and constraints are solved by elimination as an algebraic system; "
CB = (" Generic values are random points of a 127-bit field: an identity of the small degrees involved holds there if and only if it holds identically (up to 2^-100). "
      "Assumes linear-combination arithmetic (C13) and the proof system (C03, C12).") + BASE
TECH = {
    "C06": (AI + "the encoder is analysed into the list of components it writes; the decoder is then analysed reading that very list",
            "Every hand-written encoder/decoder pair of both crates, all values, both compression modes, validation on and off. Encodings of the components (ark-serialize) are assumed to round-trip." + BASE),
    "C07": (AI + "the decoder is analysed on arbitrary input, component by component, and its result is analysed being encoded again; typestate of validation",
            "Every hand-written decoder of both crates on every input, every value of the flag byte; the components' own canonicity (ark-serialize) is assumed." + BASE),
    "C03": (AI + "normal-form comparison of every coefficient of the verification equation",
            "Every position of every segment of the final multi-exponentiation, for statements and proofs of any size, both phases, both feature configurations." + BASE),
    "C01": (AI + "transcript-history (what was absorbed before each challenge) analysis with value-level comparison of absorbed items and challenge roles",
            "Every challenge of the verifier and of the inner-product verifier, for statements and proofs of any size, both phases, both feature configurations." + BASE),
    "C04": (AI + "acceptance-condition analysis (acceptance must imply each length/degeneracy check) and reachability of every panic site of the verifier",
            "Every rejecting condition required by the statement and every panic/index/unwrap site reachable in the verifier, decided for proof lists of any length." + BASE),
    "C05": (AI + "normal-form comparison of the batched equation with the weighted sum of the single equations, weight-source analysis",
            "Batches of any size; each instance's scalars and points compared with the single-proof summary." + BASE),
    "C02": (AI + "the same sequence of API calls is interpreted on prover and verifier and the resulting transcript histories are compared as terms",
            "All circuit shapes in the scenario list (numbers of commitments, multipliers, phases), all values; the commitment loops of prove/verify and the inner-product rounds for the lengths listed in the evidence." + BASE),
    "C08": (AI + "seed-provenance analysis (stream, key bytes, window) of every generator; construction and enlargement compared as terms",
            "Any capacity, party count, position and enlargement; aggregated views for the sizes in the evidence. Hash functions are taken as injective." + BASE),
    "C09": (AI + "the proof computed by the prover is taken apart: randomness-provenance analysis of every coefficient of every commitment and opening",
            "Circuits of any size in one phase with 0 to 2 vector commitments (thorough 0 to 6), two phases; the distribution of rand() and the soundness of hiding are assumed." + BASE),
    "C10": ("ownership and drop-glue analysis of the typed IR: secret-type inference, destructor bodies interpreted, owned locals and moves of every prover function classified",
            "Every prover function and container type, both configurations. Copies made by the compiler or by reallocation, and argument buffers of one multi-exponentiation, are out of scope." + BASE),
    "C11": ("whole-program audit of the typed IR: every Send/Sync impl, unsafe block, transmute, raw-pointer and trait-object bound",
            "Every type and function of both crates; auto traits are then decided by rustc itself." + BASE),
    "C12": (AI + "the same sequence of API calls is interpreted on prover and verifier; variables, counters, constraints and flattened weights are compared as terms",
            "All call sequences in the scenario list plus one-step induction over an arbitrary builder state where listed; all values." + BASE),
    "C13": (AI + "every operator implementation is interpreted on symbolic operands and the resulting term list compared with the definition of the operation",
            "Every From/Add/Sub/Mul/Neg/Extend/FromIterator/simplify/eval implementation of linear combinations, for operand lists of any length and any field values." + BASE),
    "C14": (AI + "every gadget is interpreted on a recording constraint system with a symbolic witness and without one; the two event sequences are compared and the witness is tracked into guards and coefficients",
            "Every gadget of the relations crate, every witness value, for the sizes listed in the evidence; both feature configurations." + BASE),
    "C15": (CI + "the values the circuit admits are read off its solved form",
            "Bit lengths listed in the evidence (thorough: every length 0..64), every value of the committed quantity and every assignment." + CB),
    "C16": (CI + "the admitted values are compared with the candidate list",
            "Candidate counts listed in the evidence, candidates at generic and coinciding values, every assignment." + CB),
    "C17": (CI + "the admitted table entries are compared with the columns of the table",
            "Window width as in the source, table columns 1..3, generic and coinciding entries, every assignment." + CB),
    "C18": (CI + "the admitted ordinates and sums are compared with the curve equation and the chord law",
            "Every point pair class (distinct, equal, opposite, zero coordinates) at generic values, every assignment." + CB),
    "C19": (CI + "window tables are compared with their definition, each addition is solved for its output, and integer intervals of the window scalars decide which additions may be incomplete",
            "Scalar fields of the widths listed in the evidence (255, 256 and small ones; thorough: every digit of every window), every digit string, every assignment." + CB),
    "C20": (CI + "the public point is solved for the witness wires: only children of the node, on the curve, plus table entries are admitted; parameters and absorbed messages are compared as terms",
            "Numbers of children and batch sizes listed in the evidence, generic curve parameters and points, every assignment." + CB),
    "C21": (AI + "the path verifier is interpreted on recorders of its two constraint systems; the recorded commitments and level gadgets are compared with the chain from the verifier's root to the returned leaf",
            "Tree heights 1..9 (thorough 1..16), every number of odd and even commitments up to the height, all values. The level gadget itself is C20." + BASE),
    "C22": (AI + "the batched path verifier is interpreted on recorders of its two constraint systems; the recorded commitments and level gadgets are compared with the M chains",
            "Tree heights 1..8 (thorough 1..12), the branching factors and batch sizes listed in the evidence, every shape of the multi-path, all values. The level gadgets are C20." + BASE),
    "C23": (AI + "prover and verifier gadgets are interpreted on explicit trees and paths with recorders of the constraint systems; the two event sequences are compared and each commitment opening is compared with the commitment",
            "Trees and paths of the heights, branching factors and numbers of trees listed in the evidence, every leaf index, all values (blinding scalars nonzero), single and batched paths." + BASE),
    "C24": (AI + "the builder is interpreted on symbolic leaves and generators and the tree it returns is compared node by node with the tree expected",
            "Sets of the sizes, branching factors, numbers of generator sets and heights listed in the evidence, all values of leaves and generators." + BASE),
    "C25": (AI + "the path builders are interpreted on explicit trees; the recorded child positions, siblings and openings are compared with the base-L digits of the leaf index",
            "Trees of the heights, branching factors and tree counts listed in the evidence, every leaf index below capacity, all values." + BASE),
    "C26": (AI + "the payment verifier is interpreted on recorders of its constraint systems and its recorded constraints compared, as linear spans, with the ones required; payer and verifier are compared event by event",
            "Trees of the heights listed in the evidence, every pour (all parts symbolic), payments from explicit trees; values, keys and amounts symbolic." + BASE),
    "C27": (AI + "acceptance condition analysis: signatures and decoding as uninterpreted outcomes, acceptance must imply each of them",
            "Every transaction (all parts symbolic) for trees of the heights listed in the evidence; the signature scheme itself is assumed." + BASE),
    "C28": ("differential analysis of the two feature configurations: typed bodies are compared by congruence, the functions that differ are interpreted abstractly in both and their transcripts, results and recorded statements compared; effect analysis of what parallel tasks call",
            "All functions of both crates by congruence; those that differ on the call sequences, trees and paths listed in the evidence with symbolic values." + BASE),
    "C29": (AI + "the success condition is shown to imply sufficient generators; list lengths of every multi-exponentiation compared under its path condition",
            "Proving (vector-commitment counts in the evidence, both phases), verification and batches of 1 to 3, for circuits of any size and any generator table; commit_vec and the parameters' commit." + BASE),
    "C30": (AI + "the polynomial-degree assignment of prover and verifier is extracted and every pair of degrees is checked; polynomial product and evaluation compared with their definition",
            "Vector commitment counts listed in the evidence (0..17, the largest count the transcript label table allows); all values." + BASE),
    "C31": (AI + "inner-product rounds of the prover unrolled and compared with the protocol's recursion and the verifier's equation",
            "Vector lengths listed in the evidence (powers of two up to 32, thorough 128); all values." + BASE),
    "C35": (AI + "the prover's closed-form proof is substituted into the verifier's acceptance condition; identity testing decides whether the residual vanishes",
            "The circuit shapes in the scenario list, all values of witness, coefficients, blindings and challenges (identity tests over a 255-bit field)." + BASE),
    "C37": (AI + "the published commitments are taken apart and the matrix of random scalars in their blinding parts is tested for full rank; randomness provenance",
            "Paths, multi-paths and payments of the sizes listed in the evidence, all values; the distribution of rand() is assumed." + BASE),
    "C38": (AI + "the condition of returning Ok is compared with the outcome of every callback; state before and after a refused allocation; search of the typed trees for discarded fallible results",
            "One, two and three deferred callbacks of arbitrary effect; arbitrary prover states." + BASE),
    "C36": (CI + "the assignments the gadget computes are evaluated for concrete witnesses and substituted into every gate and constraint",
            "Every gadget of the relations crate for the sizes and witness patterns listed in the evidence." + CB),
}
NA = {
    "C32": "timing is a property of generated machine code and of arkworks' variable-time arithmetic; the source-level rule 'witness never reaches a branch' is claimed as far as the gadgets go in C14, the rest is not decidable from this source",
    "C33": "a computational-soundness statement over all efficient adversaries; static analysis of the source can check the verification equation and transcript (C01, C03, C04), not the reduction",
    "C34": "coin uniqueness needs a ledger of spent tags, which this repository does not contain; there is no code to analyse",
}
NOTES = "All checks are static: each run type-checks /repo's working tree with a rustc driver (nightly), dumps the typed trees and analyses them; nothing of /repo is executed."
