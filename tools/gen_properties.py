#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

HOOK = "worker with a chosen thread count (the type is not nameable from outside the crate)"

prop("C01", "An honest proof of a satisfied instance is always accepted",
 "For every well-formed instance and every trace that satisfies it, the prover returns a proof and the verifier, built from the same instance and extension factor, accepts it (or both report that a challenge hit a forbidden point). This holds for every number of rows (power of two or not), registers, constraint degree, mix of constraint row ranges, boundary conditions, extension factor, final low-degree-test degree and number of worker threads.",
 ["inputs", "configurations", "schedules"],
 "all instances, satisfying traces, protocol parameters, fields and thread counts; challenges as drawn by the transcript",
 "The suite proves three fixed instances with one row count, one extension factor and one thread count; one of its prover tests even asserts that an honest proof is rejected.",
 ["src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/mod.rs", "src/ali/per_register/deep.rs", "src/fri/mod.rs", "src/arp/per_register/mod.rs"],
 [("prover pipeline", "src/prover/mod.rs prove"), ("verifier pipeline", "src/verifier/mod.rs verify")],
 [("transcript", "running hash of every message; source of challenges", "src/transcript/mod.rs"),
  ("oracles", "committed evaluations of witness, composition and quotient polynomials", "src/prover/mod.rs")],
 ["result of Prover::prove and Verifier::verify"], HOOK)

prop("C02", "A trace violating any constraint or boundary is not accepted",
 "If the trace handed to the prover breaks some constraint on some row where that constraint applies, or differs from a boundary value, then the resulting proof is rejected, except when the drawn challenges happen to make the protocol's algebraic checks hold, which has probability of order (degree / field size). For given challenges the verdict is exactly the one the protocol's equations give.",
 ["inputs", "configurations"],
 "all instances, all unsatisfying traces (any row, any register, any amount of corruption), all parameters",
 "One test corrupts one cell of one four-row trace; no test corrupts boundary rows, last rows, degree-two constraints or second row-range groups.",
 ["src/ali/per_register/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/deep.rs", "src/fri/verifier.rs"],
 [("divisibility of the composed constraints", "src/ali/per_register/mod.rs calculate_g"), ("recomputation of the composition at the out-of-domain point", "src/verifier/mod.rs calculate_g_at_z_from_f_at_z")],
 [("composition polynomial", "random combination of constraint quotients", "src/ali/per_register/mod.rs")],
 ["result of Verifier::verify"], HOOK)

prop("C03", "Changing any part of an accepted proof makes it rejected",
 "Take an accepted proof and change, drop, add, swap or replace any one of its parts - a claimed evaluation, an oracle root, an opened value, index or authentication path element, a layer root or layer opening, a final coefficient, or a stated parameter: the result is not accepted. Only a proof that carries the same information is accepted again.",
 ["inputs", "fault_sequences"],
 "all accepted proofs, all single-part modifications (and pairs of them that keep lengths consistent)",
 "No test modifies a proof.",
 ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/iop/blake2s_trivial_iop.rs"],
 [("opening checks and index checks", "src/verifier/mod.rs verify"), ("layer consistency checks", "src/fri/verifier.rs verify_proof_queries")],
 [("proof", "claimed evaluations, roots, openings, two low-degree proofs", "src/verifier/mod.rs InstanceProof")],
 ["result of Verifier::verify on the modified proof"])

prop("C04", "The verifier always terminates with a verdict on malformed proofs",
 "Whatever a proof contains - empty, short, long or mismatched lists, absurd stated sizes, out-of-range or unsorted indexes, missing roots or coefficients - the verifier returns acceptance, rejection or an error: it never panics, loops forever or allocates without bound.",
 ["inputs", "fault_sequences"],
 "all structurally malformed proofs for a given instance",
 "Tests only feed proofs made by the prover.",
 ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/domains/mod.rs", "src/iop/trivial_coset_combiner.rs"],
 [("length and range checks before use", "src/verifier/mod.rs verify, src/fri/verifier.rs verify_proof_queries")],
 None, ["return, panic or timeout of Verifier::verify"])

prop("C05", "The low-degree test is bound to the verifier's own sizes and roots",
 "A proof is accepted only if both low-degree proofs are for the domain size, degree bound and extension factor that the verifier derives from the instance and its own configuration, contain exactly the folding rounds these imply, give exactly as many final coefficients as the stated final degree, and open the same layer roots that were absorbed for the challenges. A prover that states other parameters or other roots is rejected even when its low-degree proof is consistent in itself.",
 ["inputs", "configurations", "fault_sequences"],
 "all parameter choices by a dishonest prover that keeps its low-degree proofs internally consistent",
 "Tests never run a verifier against a prover configured differently.",
 ["src/verifier/mod.rs", "src/fri/verifier.rs", "src/fri/mod.rs"],
 [("parameter and root comparison", "src/verifier/mod.rs verify"), ("round and coefficient count checks", "src/fri/verifier.rs")],
 [("stated parameters", "initial degree, final degree, extension factor in a low-degree proof", "src/fri/mod.rs FRIProof")],
 ["result of Verifier::verify on adaptively forged proofs"])

prop("C06", "Every challenge depends on every earlier prover message",
 "Prover and verifier derive the same sequence of challenges and query positions from a proof, and each of them depends on every message sent before it: witness roots before combination coefficients, composition root before the out-of-domain point, claimed evaluations before their combination coefficients, all low-degree-test layer roots and final coefficients before the query positions. A prover that picks any of these messages after seeing the challenge that should bind it is rejected.",
 ["histories", "inputs"],
 "all message values and all orders in which a dishonest prover may fix its messages",
 "Tests only run the honest order and never look at what a challenge depends on.",
 ["src/prover/mod.rs", "src/verifier/mod.rs", "src/ali/per_register/deep.rs", "src/transcript/mod.rs"],
 [("absorb before squeeze, mirrored on both sides", "src/prover/mod.rs prove, src/verifier/mod.rs verify")],
 [("transcript", "absorbed messages so far", "src/transcript/mod.rs")],
 ["challenge sequences seen by a recording transcript; verdict on adaptively forged proofs"])

prop("C07", "Query positions are valid, off the trace domain, and the ones opened",
 "A query position is a deterministic function of the challenge bytes and the domain parameters, lies inside the extended domain, never on a point of the original domain or of the half-size subgroup, and every such admissible position can occur. In an accepted proof all witness openings are at the first derived position and the composition opening is at the second.",
 ["inputs", "configurations"],
 "all challenge byte strings, domain sizes and extension factors >= 2",
 "No test calls the derivation with chosen bytes.",
 ["src/verifier/mod.rs", "src/prover/mod.rs"],
 [("challenge bytes to index", "src/verifier/mod.rs bytes_to_challenge_index"), ("index comparison of openings", "src/verifier/mod.rs verify")],
 None, ["derived index for given bytes; indexes inside produced proofs"])

prop("C08", "Commitment roots and openings equal the reference tree's, always",
 "For every power-of-two number (at least two) of leaves and any number of threads, the commitment is the root of the balanced binary hash tree over the leaves in order, so it depends only on the leaves, changes when any leaf changes or moves, and the opening at every position verifies at that position with the committed value.",
 ["inputs", "configurations", "schedules"],
 "all leaf vectors, sizes, positions, thread counts",
 "One test opens 64 distinct leaves with one thread count and never compares the root with an independent tree.",
 ["src/iop/blake2s_trivial_iop.rs", "src/iop/trivial_coset_combiner.rs"],
 [("level by level parallel hashing", "src/iop/blake2s_trivial_iop.rs create"), ("path extraction", "src/iop/blake2s_trivial_iop.rs get_path")],
 [("nodes", "inner hashes, root at 1", "src/iop/blake2s_trivial_iop.rs")], ["root, path and verification result"], HOOK)

prop("C09", "An opening verifies only for the committed value at that position",
 "Against a given root an opening is accepted only if it carries the committed value, the position at which that value was committed, and the authentication path of that position: changing the value, the position (including adding multiples of the tree size to it), any path element, their order or number, or the root, makes it rejected. Encodings of distinct field elements and of distinct node pairs never collide.",
 ["inputs", "fault_sequences"],
 "all trees, positions and modifications of an opening",
 "Tests only verify unmodified openings.",
 ["src/iop/blake2s_trivial_iop.rs"],
 [("path recomputation", "src/iop/blake2s_trivial_iop.rs verify"), ("leaf encoding", "src/iop/blake2s_trivial_iop.rs encode_leaf")],
 None, ["verification result"])

prop("C10", "Transcripts and hash-to-field are deterministic, injective and total",
 "Two transcripts that absorbed the same messages in the same order yield the same challenges, any difference in the bytes or order of the absorbed messages or an extra challenge drawn changes all later ones, and consecutive challenges differ. Turning digest bytes into a field element never fails, is a fixed function of the digest, always yields a canonical element and can reach every element below the largest power of two not exceeding the field size, for every supported prime field.",
 ["inputs", "histories", "configurations"],
 "all histories of absorb and challenge operations, all digests, all prime fields up to 255 bits",
 "No test compares transcripts; hash-to-field is only run on one 252-bit field and one 9-bit field.",
 ["src/transcript/mod.rs", "src/iop/blake2s_trivial_iop.rs"],
 [("absorb own output after each challenge", "src/transcript/mod.rs get_challenge"), ("masking to the field capacity", "src/transcript/mod.rs, src/iop/blake2s_trivial_iop.rs interpret_hash")],
 [("state", "running hash state", "src/transcript/mod.rs")], ["challenge bytes and elements"])

prop("C11", "Every transform variant computes the discrete Fourier transform",
 "For every power-of-two length and every thread count, each forward transform (serial, parallel, radix-4, decimation-in-time) returns the evaluations of the input polynomial at the consecutive powers of the domain generator, coset variants at those powers times the coset shift, and the inverse transforms undo them exactly.",
 ["inputs", "configurations", "schedules"],
 "all inputs, lengths, thread counts and thread interleavings; radix-4 for lengths that are powers of four",
 "Tests compare variants with each other at one large size and one thread count; none compares with the definition or with odd thread counts or tiny sizes.",
 ["src/fft/fft.rs", "src/fft/radix4_fft/mod.rs", "src/fft/dit_fft/mod.rs", "src/fft/mod.rs", "src/polynomials/mod.rs", "src/fft/multicore.rs"],
 [("bit reversal and butterflies", "src/fft/fft.rs serial_fft"), ("split into per-thread sub-transforms", "src/fft/fft.rs parallel_fft")],
 None, ["output vectors"], HOOK + "; transform kernels are crate-private")

prop("C12", "Low-degree extension equals evaluation on the larger (coset) domain",
 "For every polynomial size, power-of-two extension factor and thread count, extending a polynomial returns exactly its evaluations over the larger domain in natural order, the coset variants those over the shifted domain, and all extension algorithms agree.",
 ["inputs", "configurations", "schedules"],
 "all inputs, sizes, factors and thread counts (including factors larger and smaller than the thread count)",
 "The correctness tests for extension fail on the reference machine and are not in the reliable suite, so nothing checks it.",
 ["src/polynomials/mod.rs", "src/fft/lde.rs"],
 [("one transform per coset, then interleave", "src/polynomials/mod.rs lde_using_multiple_cosets"), ("zero-skipping transform", "src/fft/lde.rs")],
 None, ["output vectors"], HOOK)

prop("C13", "Parallel polynomial operations equal their sequential definitions",
 "Addition, subtraction, scaled addition, multiplication, scaling, negation, powers, constant addition, multiplication by successive powers, evaluation at a point, evaluation of linear polynomials over domains, batch inversion and domain precomputation give, for every length and thread count, the same result as the element-by-element definition. Batch inversion inverts every element, or reports an error and changes nothing when an element is zero.",
 ["inputs", "configurations", "schedules"],
 "all operand vectors, lengths (also not divisible by the thread count), thread counts and interleavings",
 "Only batch inversion is tested, for power-of-two lengths and one thread count.",
 ["src/polynomials/mod.rs", "src/precomputations/mod.rs", "src/fft/mod.rs", "src/fft/multicore.rs", "src/utils/poly.rs"],
 [("disjoint chunks, one thread each", "src/fft/multicore.rs scope"), ("per-chunk start power", "src/polynomials/mod.rs evaluate_at, distribute_powers")],
 [("chunk", "slice owned by one thread", "src/fft/multicore.rs")], ["output vectors"], HOOK)

prop("C14", "Domains and polynomial construction are exact for all sizes",
 "A domain requested for any size is the multiplicative subgroup of the next power of two, with a generator of exactly that order, or an error when the field has no such subgroup; coset and next-domain index mappings are the squaring map's. Building a polynomial from roots, by interpolation, by padding or trimming yields exactly the polynomial defined, and evaluating by consecutive powers equals the weighted sum.",
 ["inputs", "configurations"],
 "all requested sizes from 1 to the 64-bit maximum, all indexes, root lists and point lists, thread counts",
 "No test requests a size that is not a power of two or too large, and construction from roots and interpolation are untested.",
 ["src/domains/mod.rs", "src/polynomials/mod.rs", "src/utils/poly.rs", "src/utils/mod.rs", "src/iop/trivial_coset_combiner.rs"],
 [("repeated squaring of the field's root of unity", "src/domains/mod.rs new_for_size"), ("products of linear factors", "src/polynomials/mod.rs from_roots")],
 None, ["domain fields, coefficient vectors, error results"], HOOK)

prop("C15", "Trace checking accepts exactly the satisfying traces",
 "Checking a trace against an instance succeeds if and only if every constraint evaluates to zero on every row from its start row up to the number of rows minus its span, and every boundary condition with a value holds; a constraint that would read beyond the trace on a checked row is reported as an error.",
 ["inputs"],
 "all instances (terms with several registers, step differences, powers and coefficients; start rows and spans) and all traces",
 "Only one satisfying two-register trace is checked; no violated trace is ever checked.",
 ["src/arp/per_register/mod.rs", "src/arp/density_query.rs"],
 [("row enumeration", "src/arp/density_query.rs"), ("constraint evaluation", "src/arp/per_register/mod.rs verify_witness")],
 None, ["Ok or Err of the check"], HOOK)

prop("C16", "Witness polynomials interpolate the trace",
 "For every trace, the polynomial of each register has degree below the domain size and takes the trace's value at the generator's power of each row, for any number of rows, registers and threads; traces whose shape does not match the instance are refused.",
 ["inputs", "configurations", "schedules"],
 "all traces, row counts (power of two or not), register counts and thread counts",
 "One four-row, two-register trace is interpolated with one thread count.",
 ["src/arp/per_register/mod.rs", "src/arp/mappings.rs"],
 [("inverse transform per register", "src/arp/per_register/mod.rs make_witness_polymonials")],
 None, ["coefficients of the produced polynomials"], HOOK)

prop("C17", "The composition polynomial is exactly the combined constraint quotient",
 "For every instance, witness and challenges, the composition polynomial equals the sum over constraints and boundary conditions of (random degree adjustment) x (constraint) / (vanishing polynomial of exactly the rows it covers) as evaluated on the shifted domain. For a satisfying trace it equals that quotient at every point, so the verifier's value computed from the claimed evaluations equals the polynomial's value at the out-of-domain point; for a violating trace the two differ except for exceptional challenges.",
 ["inputs", "configurations"],
 "all instances (several row ranges, degrees, boundary rows), witnesses, challenges, thread counts",
 "One two-register instance with a single row range and degree one is composed and a single coefficient is checked.",
 ["src/ali/per_register/mod.rs", "src/ali/mod.rs", "src/verifier/mod.rs", "src/arp/mappings.rs"],
 [("coset evaluation and inverse divisors", "src/ali/per_register/mod.rs from_arp, calculate_g"), ("verifier-side evaluation", "src/verifier/mod.rs calculate_g_at_z_from_f_at_z")],
 [("divisors", "inverse vanishing polynomial per row range and per boundary row", "src/ali/per_register/mod.rs")],
 ["coefficients of the composition polynomial"], HOOK)

prop("C18", "Out-of-domain quotients match the claimed evaluations",
 "For every witness, composition and out-of-domain point, the claimed evaluations are the register polynomials' values at that point times each distinct step mask, the first quotient is the random combination over all distinct (register, step) pairs of (f(x) - claimed) / (x - mask z) and the second is (g(x) - g(z)) / (x - z) over the extended domains. The values the verifier recomputes at a query position from the openings equal the prover's at that position.",
 ["inputs", "configurations"],
 "all witnesses, masks, points, challenges, thread counts",
 "No test looks at quotient values; only an end-to-end verdict on one instance exists.",
 ["src/ali/per_register/deep.rs", "src/verifier/mod.rs"],
 [("quotients over the extended domain", "src/ali/per_register/deep.rs calculate_deep"), ("recomputation at the position", "src/verifier/mod.rs simulate_h1_from_f_at_z, simulate_h2_from_g_at_z")],
 None, ["quotient value vectors and claimed evaluations"], HOOK)

prop("C19", "Folding commits exactly the random even/odd fold of each layer",
 "For every input layer, extension factor, final degree and thread count, each committed layer is the even-plus-challenge-times-odd fold of the previous one with the challenge derived from that previous layer's root, the number of layers is the one the degrees imply, the final coefficients are those of the last layer, and folding by values and folding by coefficients produce identical results on low-degree inputs.",
 ["inputs", "configurations", "schedules"],
 "all low-degree and non-low-degree inputs, sizes, extension factors, final degrees, thread counts",
 "One degree-four input with one folding step is compared.",
 ["src/fri/fri_on_values.rs", "src/fri/mod.rs", "src/fri/query_producer.rs"],
 [("folding over values", "src/fri/fri_on_values.rs"), ("folding over coefficients", "src/fri/mod.rs proof_from_lde_through_coefficients")],
 [("layers", "intermediate values, roots and challenges", "src/fri/mod.rs FRIProofPrototype")],
 ["layers, roots, challenges, final coefficients"], HOOK)

prop("C20", "The low-degree test accepts exactly consistent foldings",
 "For every low-degree input, final degree and admissible query position, the produced low-degree proof verifies for the input's value at that position, and the prover-side self-check agrees. It is rejected for any other claimed value, and whenever at some round along the query the opened values do not fold to the next layer's opened value or to the final coefficients' value.",
 ["inputs", "configurations", "fault_sequences"],
 "all inputs, sizes, extension factors, final degrees (1 and larger), admissible positions, and per-layer inconsistencies with recomputed roots",
 "Test results for wrong verdicts are only printed, never asserted, and final degrees above one are never verified.",
 ["src/fri/verifier.rs", "src/fri/query_producer.rs"],
 [("per-round fold and comparison", "src/fri/verifier.rs verify_proof_queries, verify_prototype"), ("query production", "src/fri/query_producer.rs")],
 None, ["verification results for each position"], HOOK)

prop("C21", "Building constraints preserves the meaning and the degree",
 "A constraint assembled by adding and subtracting constants, single-register terms and products of terms evaluates on every assignment to the same value as the written expression, and its stated degree is the largest total degree among its terms; raising a term to a power multiplies its exponent, and shifting it reads the register that many rows later.",
 ["programs", "inputs"],
 "all sequences of builder operations and all assignments",
 "Builders are only exercised on fixed constraints whose values are never compared with the expression.",
 ["src/air/constraint.rs", "src/air/mod.rs"],
 [("operator implementations", "src/air/constraint.rs")],
 None, ["built constraint structures evaluated on assignments"])

prop("C22", "Instance builders produce instances their own traces satisfy",
 "Converting a traced program or one of the built-in sequential computations into an instance keeps every register, in a fixed order, with constraints and boundary conditions remapped to match, reports the true numbers of rows and registers, and the generated trace is the computation's and satisfies the generated instance for every start value and length; a trace in which a cell that the computation fixes is wrong does not.",
 ["programs", "inputs"],
 "all start values and lengths of the built-in computations; all traced programs over the register kinds",
 "Built-in computations are only run with one start value and length, and only one register kind is ever traced.",
 ["src/arp/mod.rs", "src/air/test_trace_system.rs", "src/experiments/vdf.rs", "src/experiments/cubic_vdf.rs"],
 [("register renumbering", "src/arp/mod.rs into_arp"), ("trace generation", "src/experiments/vdf.rs, src/experiments/cubic_vdf.rs")],
 None, ["instance and witness returned by the conversion"], "re-export of the private builders")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        assert d["statement"].count(". ") <= 2, (d["id"], d["statement"].count(". "))
        f.write(json.dumps(d) + "\n")
print(len(P))
