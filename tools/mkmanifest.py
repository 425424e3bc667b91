#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl") if x.strip()]
TRUST = " Trusted: TLC, the harness' recording; hashes assumed collision free."
CLAIMED = {
 "C01": ("TLC: recorded honest runs judged by the protocol specification (satisfied instance => accepted)", "Instances with every shape parameter varied, 4 fields, thread counts, factors, final degrees and the built-in computations; the known finding D1 is accepted only in its configurations; constraints with many terms, high powers, and counts (rows, registers, constraints, steps) beyond one byte included."),
 "C02": ("TLC: the verifier specified as equations over claimed values, openings and challenges; recorded verdicts on violating traces must equal it", "Violating traces on 2 small fields with the exact verdict recomputed, also under chosen (exceptional) challenges; on a 252-bit field every violating trace must be rejected; wide, vast and far shapes included."),
 "C03": ("TLC: every part of recorded proofs altered on the real code, verdicts judged by the verifier specification", "All single alterations of every part of each proof (random subset per proof in quick), 2 small fields exact, 252-bit field absolute."),
 "C04": ("TLC: malformed proofs enumerated, executed with time and memory limits, every outcome must be a verdict", "Absurd sizes, all list shapes, random combinations."),
 "C05": ("TLC: forged low-degree proofs with other parameters, consistent in themselves, judged by the verifier specification", "All single and coupled changes of sizes, factor, rounds, coefficients and roots on instances where the forged proof is internally consistent."),
 "C06": ("TLC: transcript dependency specification over recorded sensitivity runs", "Every prover message of each recorded proof is changed; every later challenge and position must change (252-bit field, no chance coincidences)."),
 "C07": ("TLC: admissible positions specified; all residues of the challenge bytes executed; moved openings judged", "Every domain size up to 8192 with factors 2 to 32: exact set of reachable positions; openings moved to other positions where values agree."),
 "C17": ("TLC: composition polynomial defined from instance, trace and challenges; committed values recomputed", "All committed values of each run on 2 small fields (up to traces, powers, steps and spans beyond one byte), satisfying and violating traces, scripted challenges."),
 "C18": ("TLC: claimed evaluations and quotients defined; committed layers recomputed point by point", "As C17."),
 "C19": ("TLC: fold defined on values and coefficients; every recorded layer recomputed", "Every degree, factor, final degree, thread count in scope; low-degree and arbitrary words."),
 "C20": ("TLC: low-degree-test verifier specified; every position and forged proof judged", "All positions of each word, altered layers, refolded layers, altered openings and coefficients."),
 "C08": ("TLC: reference tree specification over recorded trees and paths; model of the tree with free hash terms", "Every recorded commitment and path (all sizes to 2^11, sampled to 2^14, all thread counts, all leaf vectors over small alphabets) is recomputed by the specification; binding is model-checked for a free hash."),
 "C09": ("TLC: opening adversary model with free hash terms; every altered opening replayed on the real verifier function", "All openings an adversary can form over a 4-leaf tree are enumerated in the model; on the code every single-field alteration of openings of trees up to 64 leaves (sampled to 4096) is executed and judged."),
 "C10": ("TLC: transcript as history (relational specification) over enumerated histories; digest-to-field bit specification", "All histories up to length 3-5 over a token alphabet, and sampled ones of hundreds of operations and long messages, are executed and compared pairwise; digest conversion is checked bit by bit for 14 fields."),
 "C11": ("TLC: transform definitions, recorded transforms recomputed; model of fast transform and parallel schedule", "All unit vectors of small lengths (the transform is linear), random vectors of larger ones, every variant and thread count."),
 "C12": ("TLC: extension definition, recorded extensions recomputed", "As C11, factors to 4096; the configurations of the known finding D1 are accepted only with exactly the known wrong values."),
 "C13": ("TLC: element-wise definitions, recorded operations recomputed; interleaving model of the chunked worker", "Every operation, length and thread count in scope; chunk boundaries around every thread count, lengths to 16384 sampled."),
 "C14": ("TLC: subgroup and polynomial definitions, recorded domains and polynomials recomputed", "All domain sizes 2^k+d up to 64 bits, all small shapes; the known finding D1 is accepted only with exactly the known values."),
 "C15": ("TLC: trace satisfaction specification over enumerated traces and mutated instances", "All traces of one register over three values against all row ranges; random instances with every single cell changed (sampled for traces of thousands of cells, steps, spans and registers beyond one byte)."),
 "C16": ("TLC: interpolation specification, recorded witness polynomials evaluated", "Every number of rows up to 17 (70 thorough), sampled to 4096 rows and 300 registers, and every wrong shape, several fields and thread counts."),
 "C21": ("TLC: formal polynomial semantics of the building operations, recorded constraints compared", "Equality as formal polynomials decides equality on every assignment, for enumerated and random programs of building operations."),
 "C22": ("TLC: reference computations and register remapping specification over recorded builder output", "Start values, lengths and register mixes enumerated; every single-cell change judged."),
 "C23": ("TLC: the verifier of another instance specified by its own equations; recorded verdicts must equal it", "33 kinds of changes to the verifier's instance (values, rows, registers, coefficients, terms, ranges, order, multiplicity), 2 small fields exact, 252-bit field: never accepted when the trace violates the verifier's instance."),
 "C25": ("TLC: state machine of a polynomial object; recorded histories of operations checked step by step as its transitions", "All pairs of operations (with refused ones) on a 4-element object, a sample of the triples, long pseudo-random walks of the specification's own operation table over 6 sizes and 3-9 thread counts; the cached domain data is modelled in MCPoly. The known finding D1 is accepted only with exactly the known values."),
 "C26": ("TLC: a hasher specified as the absorbed string; recorded digests related over all recorded histories", "All histories of up to 3 (4 thorough) operations over an 8-token alphabet and 6 personalizations, all cuts and lengths around the block sizes; digests must be an injective function of the string, with published values for two strings; long strings and many updates; MCHasher models the buffering designs."),
 "C24": ("TLC: memoryless specification of prover and verifier; recorded histories of calls on shared objects judged", "Every third-order history class sampled plus long ones, each against fresh objects on other thread counts and against the same calls made simultaneously; the interleaving model MCReuse shows which designs would break it."),
}
NOT = {}
for i in ids:
    if i not in CLAIMED:
        NOT[i] = "check under construction"
m = {
 "version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(hodor_verif), with hodor_verif_kernels and hodor_verif_builders for the optional parts", "enable": "RUSTFLAGS='--cfg hodor_verif --cfg hodor_verif_kernels --cfg hodor_verif_builders' (build.sh sets it for the harness)", "source_commits": ["252021e", "1205691"]},
 "checks": [{"property": i, "quick_cmd": "./run.py %s quick" % i, "thorough_cmd": "./run.py %s thorough" % i, "technique": CLAIMED[i][0],
             "level": "model_checking", "level_note": CLAIMED[i][1] + TRUST} for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NOT[i]} for i in ids if i in NOT],
 "notes": "One driver (run.py) for all checks; the specification is in spec/, the harness driving the real code in harness/.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
