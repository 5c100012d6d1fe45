#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IP, DH = "inner_products/src/lib.rs", "dh_commitments/src"
G, T, S = "ip_proofs/src/gipa.rs", "ip_proofs/src/tipa/mod.rs", "ip_proofs/src/tipa/structured_scalar_message.rs"
PC, PT = "ip_proofs/src/applications/poly_commit/mod.rs", "ip_proofs/src/applications/poly_commit/transparent.rs"
GA, SI, SR = "ip_proofs/src/applications/groth16_aggregation.rs", "sipp/src/lib.rs", "sipp/src/rng.rs"

def m(name, where): return {"name": name, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, hook=None, obs=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors=a, technique=technique, note=note))

ONE = "The unit tests run one random input of size 8 (or 32) with a fixed seed"
ALG = "Judged by algebraic oracles on real executions; trusts ark-ec/ark-ff arithmetic and the hash functions."

prop("C01", "Inner products equal their definition for every vector and thread count",
 "The pairing, multi-exponentiation and scalar inner products return exactly the sum of the element-wise products, for any two vectors of one length, whatever special values they hold and however many threads work on them. They are bilinear and independent of the order of the pairs. Vectors of different lengths are refused with an error.",
 ["inputs", "schedules", "configurations"], "all vector lengths including 0 and 1, all element values including neutral, repeated and cancelling ones, both curves, all thread counts",
 "The inner_products crate has no test of its own; the others sample a length of 8 on one thread pool, never chunk remainders, neutral elements or mismatched lengths.",
 [IP], [m("length check before work", IP + ": InnerProduct impls"), m("chunked multi-Miller loop", IP + ": cfg_multi_pairing")],
 "differential monitor against naive references under varied rayon pools", ALG)
prop("C02", "Commitments are exact, doubly homomorphic, binding, and refuse wrong lengths",
 "Every commitment equals its defining inner product of key and message, adds and scales together with messages and with keys, and verification accepts a commitment exactly when it is the commitment of that message under that key. A key and a message of different lengths are refused where the scheme compresses. Setup delivers as many keys as asked for, all distinct, non-neutral and fresh.",
 ["inputs", "histories"], "all messages, keys, scalars and sizes; all ways of altering a message, a key or a commitment",
 ONE + " and replace the whole message at once; no homomorphism, single-element change or key freshness is tested.",
 [DH + "/lib.rs", DH + "/afgho16/mod.rs", DH + "/pedersen/mod.rs", DH + "/identity/mod.rs"],
 [m("commit as inner product", DH + "/afgho16/mod.rs, pedersen/mod.rs: commit"), m("verify by recomputation", DH + "/lib.rs: DoublyHomomorphicCommitment::verify"), m("random keys", DH + "/lib.rs: random_generators")],
 "algebraic-law monitors and naive references over generated messages and keys", ALG)
prop("C03", "Honest inner-product arguments are always produced and accepted",
 "For every power-of-two size, every pair of vectors, every inner product and commitment scheme, curve and hash, proving a true statement succeeds and its verification succeeds. This holds also when the hash yields values that are unusable as challenges, and for proofs made and checked through the lower-level entry points.",
 ["inputs", "configurations", "fault_sequences"], "all sizes from 1, all vector values, all instantiations, all digest outputs including unusable ones",
 ONE + " per scheme; the retry path for unusable challenges never runs, and size 1 or degenerate vectors never occur.",
 [G], [m("recursive halving, prover", G + ": _prove"), m("recursive folding, verifier", G + ": _compute_recursive_challenges, _compute_final_commitment_keys"), m("challenge retry", G + ": 'challenge loops")],
 "honest-run monitor over generated statements with fault-injecting digests", ALG)
prop("C04", "The inner-product argument accepts no false statement",
 "No proof makes the verifier accept commitments and a product that do not belong together under the given keys: a wrong product, a commitment to another vector or under permuted or foreign keys, or a proof of a shorter statement is always refused. This holds for provers that choose the statement after computing the proof.",
 ["inputs", "histories"], "all false statements and all proofs an adversary can build from the prover's own machinery, including adaptive ones",
 "No test presents a false statement or a forged proof: every existing test expects acceptance.",
 [G], [m("base commitment check", G + ": _verify_base_commitment"), m("key folding", G + ": _compute_final_commitment_keys"), m("challenges bound to statement and rounds", G + ": _compute_recursive_challenges")],
 "adversarial provers that each break one verifier condition; monitor: never accepted", "Refutes soundness by attack; the attacks tried are listed in DESIGN.md. Not a proof of soundness.")
prop("C05", "The prover and verifier refuse invalid statements and key shapes with an error",
 "Asked to prove a statement whose product or whose commitments are wrong, whose vectors differ in length or are no power of two long, or whose keys do not fit, the checked prover returns an error and never a proof. The verifier returns an error for key vectors of unequal or non-power-of-two length.",
 ["inputs"], "all invalid statements and all key shapes",
 "No test calls the prover or the verifier with anything invalid.",
 [G], [m("statement checks", G + ": GIPA::prove"), m("key shape check", G + ": GIPA::verify")],
 "negative-input monitor: an error, not a value or panic, for each invalid statement", ALG)
prop("C06", "Honest trusted-setup inner-product arguments are always accepted",
 "For every power-of-two setup size from one up, every pair of vectors, instantiation and non-zero key shift, proving a true statement under the setup's keys succeeds and verification with the constant-size verifier key accepts. This holds also when the hash yields unusable challenges.",
 ["inputs", "configurations", "fault_sequences"], "all power-of-two setup sizes with statements of that size, vectors, shifts, instantiations and digest outputs",
 ONE + "; shifts are tested once, retries and size 1 never.",
 [T], [m("folding argument", G + ": _prove"), m("key opening", T + ": prove_commitment_key_kzg_opening"), m("shift handling", T + ": prove_with_srs_shift, verify_with_srs_shift")],
 "honest-run monitor over generated statements, shifts and fault-injecting digests", ALG)
prop("C07", "The trusted-setup inner-product argument accepts no false statement",
 "No proof makes the verifier accept a wrong product, a commitment under keys other than the setup's (shifted as claimed), final keys that do not follow from the challenges, or a statement or shift chosen after the proof. An honest proof is refused for any other commitment, product, shift or setup.",
 ["inputs", "histories"], "all false statements, all forged proofs built from the prover's own machinery, all shifts",
 "No test presents a false statement or a forged proof.",
 [T], [m("key opening checks on both sides", T + ": verify_commitment_key_g1_kzg_opening, verify_commitment_key_g2_kzg_opening"), m("base check", T + ": verify_with_srs_shift"), m("challenge point bound to final keys", T + ": KZG challenge point")],
 "adversarial provers that each break one verifier condition; monitor: never accepted", "Refutes soundness by attack. Not a proof of soundness.")
prop("C08", "Honest arguments about powers of a public scalar are always accepted",
 "For every power-of-two size, message vector and public scalar (zero, one and minus one included), the argument that the inner product of the committed vector with the scalar's powers is as claimed is produced and accepted, in the transparent and in the trusted-setup form. The power vector handed out is exactly the scalar's powers.",
 ["inputs", "configurations", "fault_sequences"], "all sizes, messages, scalars, instantiations and digest outputs",
 ONE + " and one random scalar per form.",
 [S], [m("placeholder commitment for the public side", S + ": SSMPlaceholderCommitment"), m("product form of the folded scalar", S + ": verify_with_structured_scalar_message"), m("powers", S + ": structured_scalar_power")],
 "honest-run monitor over generated statements and scalars", ALG)
prop("C09", "Arguments about powers of a public scalar accept no false statement",
 "No proof makes the verifier accept a product that is not the inner product of the committed vector with the powers of exactly the public scalar: other right-hand vectors, other scalars, wrong products, other commitments or keys are refused. This holds for provers that choose the scalar or the statement after the proof.",
 ["inputs", "histories"], "all false statements and forged proofs built from the prover's own machinery, including adaptive ones",
 "No test presents a false statement, another scalar or a forged proof.",
 [S], [m("base check with recomputed scalar", S + ": verify_with_structured_scalar_message"), m("challenges bound to the scalar", S + ": structured_scalar_context"), m("key opening", T + ": verify_commitment_key_g2_kzg_opening")],
 "adversarial provers that each break one verifier condition; monitor: never accepted", "Refutes soundness by attack. Not a proof of soundness.")
prop("C10", "Every challenge depends on the whole statement and all earlier messages",
 "In every non-interactive protocol, prover and verifier derive the same challenges, and each challenge changes whenever any component of the statement (commitments, product, public scalar, key shift, points, values) or any message the prover sent before it changes. A proof element chosen after its challenge is known never yields an accepted false statement.",
 ["inputs", "histories"], "all protocols, all rounds, all statement components and message components",
 "Tests run prover and verifier together; a challenge that ignores a component passes all of them.",
 [G, T, S, GA, SI, SR], [m("round hash input", G + ": _prove, _compute_recursive_challenges"), m("KZG challenge", T + " and " + S + ": KZG challenge point"), m("aggregation randomiser", GA + ": r"), m("seed and absorb", SI + ": FiatShamirRng use")],
 "recording digest: challenge tapes compared under single-component mutations; two-phase forging", "Components mutated one at a time on sampled instances; the aggregation randomiser's independence of the public inputs is the known finding of C20.")
prop("C11", "Honest pairing-product arguments are always accepted; products are exact",
 "For every power-of-two number of pairs from two up, every point and scalar (neutral points and zero scalars included), the argument that the scaled pairing product has its true value is produced and accepted. The library's pairing-product functions return exactly that value for any number of pairs and any thread count.",
 ["inputs", "schedules", "configurations"], "all sizes, points, scalars, curves and thread counts",
 "One test with 32 random pairs on the default thread pool.",
 [SI], [m("halving rounds", SI + ": SIPP::prove"), m("folded multi-exponentiation", SI + ": SIPP::verify"), m("chunked product", SI + ": product_of_pairings_with_coeffs")],
 "honest-run monitor and naive pairing reference under varied rayon pools", ALG, hook="ark-sipp Proof accessors (verif-hooks)")
prop("C12", "The pairing-product argument accepts no false value",
 "No proof makes the verifier accept a claimed pairing product different from the true one for the given points and scalars, whether the rounds are honest, altered, permuted or random. This holds for adversaries that choose the value, a point or a scalar after seeing the challenges.",
 ["inputs", "histories"], "all false claims and all proofs an adversary can assemble, including adaptive ones",
 "No test presents a false claim or another proof.",
 [SI, SR], [m("final pairing check", SI + ": SIPP::verify"), m("seed over the whole statement", SI + ": FiatShamirRng::from_seed"), m("absorb each round", SI + ": rng.absorb")],
 "adversarial provers with a recording digest; monitor: never accepted", "Refutes soundness by attack. Not a proof of soundness.", hook="ark-sipp Proof accessors (verif-hooks)")
prop("C13", "The Fiat-Shamir generator's output is determined by its whole history",
 "Two generators with the same seed and the same absorbed strings produce the same output; if the seed, any absorbed string, their order or their boundaries differ, the outputs differ. Absorbing always starts a new stream that still depends on everything absorbed before.",
 ["histories", "inputs"], "all sequences of seeding, absorbing and reading (no absorbed string containing the generator's own digests)",
 "The generator has no test; it only serves as a random source in one.",
 [SR], [m("chained digest", SR + ": absorb"), m("digested seed", SR + ": from_seed")],
 "history monitor: pairwise comparison of output streams over generated operation histories", "Distinctness is observed on sampled histories, not proved.",
 state=[{"name": "seed", "meaning": "digest chain over everything absorbed", "where": SR}])
prop("C14", "Polynomial commitments with trusted powers open exactly to the true values",
 "For every polynomial that fits the powers and every point, the opening of its commitment verifies for the true value, and for no other value, point or commitment. Commitments are additive and distinguish polynomials.",
 ["inputs"], "all polynomials up to capacity (zero and constant included), all points (zero, roots), all altered values, points, commitments and openings",
 "This scheme is only exercised inside one bivariate test, always with true values.",
 [PC], [m("pairing check", PC + ": KZG::verify"), m("quotient", PC + ": KZG::open")],
 "honest-run and forgery monitors over generated polynomials", ALG)
prop("C15", "Trusted-setup polynomial commitments: honest openings verify at the true value",
 "For every setup whose row count is a power of two and every two-variable polynomial within its degrees, and for every one-variable polynomial up to the set degree, the opening at any point verifies for exactly the polynomial's value there. Shorter, sparse, zero and full polynomials, and degree zero, are all served.",
 ["inputs", "configurations"], "all degrees, polynomials and points",
 "One full random polynomial of degrees (7,7) and one of degree 65535, at one random point each.",
 [PC], [m("row commitments", PC + ": BivariatePolynomialCommitment::commit"), m("folding at x, opening at y", PC + ": BivariatePolynomialCommitment::open"), m("reshaping", PC + ": bivariate_form, bivariate_degrees")],
 "honest-run monitor with naive evaluation reference", ALG, hook="serialisation of BivariatePolynomial and OpeningProof (verif-hooks)")
prop("C16", "Trusted-setup polynomial commitments accept no wrong evaluation",
 "No opening makes the verifier accept a value other than that of the committed polynomial at the point: wrong values, points, commitments, openings of other polynomials, and openings whose parts come from different provers are refused.",
 ["inputs", "histories"], "all false evaluation claims and all openings assembled from the library's own provers",
 "No test presents a false evaluation or a forged opening.",
 [PC], [m("both tiers must hold", PC + ": BivariatePolynomialCommitment::verify"), m("row commitment linked to opening", PC + ": y_eval_comm")],
 "adversarial openings that each break one tier; monitor: never accepted", "Refutes binding by attack. Not a proof.", hook="serialisation of OpeningProof (verif-hooks)")
prop("C17", "Transparent polynomial commitments: honest openings verify at the true value",
 "For every transparent setup whose row count and row length are powers of two and every two-variable polynomial within its degrees, and for every one-variable polynomial up to the set degree, the opening at any point verifies for exactly the polynomial's value there. Shorter, sparse, zero and full polynomials, and degree zero, are all served.",
 ["inputs", "configurations"], "all degrees, polynomials and points",
 "One full random polynomial of degrees (7,7) and one of degree 65535, at one random point each.",
 [PT], [m("row commitments", PT + ": BivariatePolynomialCommitment::commit"), m("two folding arguments", PT + ": BivariatePolynomialCommitment::open"), m("reshaping", PT + ": bivariate_form, bivariate_degrees")],
 "honest-run monitor with naive evaluation reference", ALG, hook="serialisation of BivariatePolynomial and OpeningProof (verif-hooks)")
prop("C18", "Transparent polynomial commitments accept no wrong evaluation",
 "No opening makes the transparent verifier accept a value other than that of the committed polynomial at the point: wrong values, points, commitments, openings of other polynomials, and openings whose parts come from different provers are refused.",
 ["inputs", "histories"], "all false evaluation claims and all openings assembled from the library's own provers",
 "No test presents a false evaluation or a forged opening.",
 [PT], [m("both tiers must hold", PT + ": BivariatePolynomialCommitment::verify"), m("row commitment linked to opening", PT + ": y_eval_comm")],
 "adversarial openings that each break one tier; monitor: never accepted", "Refutes binding by attack. Not a proof.", hook="serialisation of OpeningProof (verif-hooks)")
prop("C19", "Aggregates of valid Groth16 proofs always verify",
 "For every power-of-two number of valid Groth16 proofs under one verifying key, with any number of public inputs and any input values, aggregation succeeds and the aggregate verifies with the matching inputs. Repeated proofs and equal inputs are no exception.",
 ["inputs", "configurations"], "all batch sizes from 1, all circuits' input counts, all input values, both curves",
 "The crate has no test of aggregation: only an example program and a benchmark use it.",
 [GA], [m("randomised product", GA + ": aggregate_proofs"), m("aggregate equation", GA + ": verify_aggregate_proof")],
 "honest-run monitor with real and simulated Groth16 proofs cross-checked by ark-groth16", ALG)
prop("C20", "An aggregate verifies only if every aggregated Groth16 proof is valid",
 "A batch in which any proof is invalid for its public inputs under the verifying key never yields an accepted aggregate, whatever the aggregator does with commitments, product, sum and sub-proofs. An honest aggregate is refused for other inputs, another order of inputs, another verifying key or another setup.",
 ["inputs", "histories"], "all batches with an invalid member, all aggregates an adversary can assemble, all altered inputs, keys and setups",
 "There is no test of the aggregation at all.",
 [GA], [m("three checks combined", GA + ": verify_aggregate_proof"), m("randomiser from the commitments", GA + ": r"), m("sub-arguments", GA + ": tipa_proof_ab, tipa_proof_c")],
 "adversarial aggregators that each break one of the three checks; monitor: never accepted", "Refutes soundness by attack. Inputs chosen after the randomiser are a known finding (see known_findings.txt).", hook="serialisation of AggregateProof (verif-hooks)")
prop("C21", "Setups are well-formed, fresh and usable for exactly their size",
 "Every trusted setup consists of consecutive powers of one secret per side, consistent with the verifier's elements; the commitment keys handed out are the ones the verifier's checks assume, as many as asked for. Two setups, and the secrets of the two sides, never coincide, and one random stream always yields one setup.",
 ["inputs", "histories", "configurations"], "all sizes and random streams, all setup entry points",
 "Tests use setups without ever looking at their structure.",
 [T, S, PC, PT, GA], [m("power tables", T + ": structured_generators_scalar_power"), m("key extraction", T + ": get_commitment_keys"), m("verifier key", T + ": get_verifier_key")],
 "pairing-consistency monitor over generated setups", ALG)
prop("C22", "Proofs and keys survive serialisation, and malformed bytes are refused",
 "Every proof, key and commitment that can be serialised comes back equal from both encodings, is as long as announced, and a proof that has travelled is still accepted. Truncated bytes are refused, and altered bytes never decode to elements outside the prime-order groups.",
 ["inputs", "histories"], "all values, both encodings, all truncations, sampled byte alterations and out-of-group points",
 "No test serialises a proof or a key.",
 [G, T, S, DH + "/identity/mod.rs"], [m("derived and manual serialisation", G + ": GIPAProof; " + T + ": TIPAProof; " + S + ": TIPAWithSSMProof, placeholder values")],
 "round-trip and mutation monitor over serialised artefacts", ALG, hook="serialisation of AggregateProof and OpeningProof (verif-hooks)")
prop("C23", "Verifiers give a verdict on any decodable proof, in bounded work",
 "Whatever proof a verifier is handed (too many or too few rounds, neutral or arbitrary elements, parts of other proofs) it returns acceptance, refusal or an error: it never panics, and never takes more memory or hashing than the honest proof's size explains. The same holds for public inputs of the wrong shape.",
 ["inputs"], "all decodable proofs and public inputs against fixed honest keys",
 "Tests only show verifiers honest proofs.",
 [G, T, S, PC, PT, GA, SI], [m("round count checks", G + ": GIPA::verify; " + SI + ": SIPP::verify"), m("input shape check", GA + ": verify_aggregate_proof")],
 "hostile-proof workload with panic, allocation and digest-count monitors", "Bounds: at most 24 rounds of excess, sampled group elements.", hook="serialisation of proofs (verif-hooks)")
prop("C24", "Results do not depend on threads, build of parallelism, or other runs",
 "Proving, committing, aggregating and verifying are functions of their inputs alone: every thread count, any number of concurrent calls, repeated calls and the builds with and without parallelism yield identical values and verdicts.",
 ["schedules", "configurations", "histories"], "all thread-pool sizes, concurrent mixes of operations, both builds",
 "Tests run each operation once, with one build and the default pool.",
 [IP, G, T, S, SI], [m("data-parallel iterators", G + ": cfg_iter; " + IP + ": cfg_multi_pairing; " + SI + ": par_chunks")],
 "schedule-perturbation monitor comparing transcripts across pools, concurrency and builds", "Interleavings sampled by the scheduler under pools, oversubscription and lanes in step; data races are the matter of C27.")
prop("C25", "Proofs are logarithmic and trusted-setup verification needs constant-size keys",
 "A proof has exactly one round per halving of the vector and constant data besides, in every protocol; polynomial openings and aggregates have the matching size. Hashing by the verifiers grows with the number of rounds only, and proofs of one size are equally long.",
 ["inputs", "configurations"], "all sizes up to the bound and all protocols",
 "No test looks at the size of a proof or the work of a verifier.",
 [G, T, S, PC, PT, GA, SI], [m("one commitment pair per round", G + ": r_commitment_steps; " + SI + ": gt_elems")],
 "size and work monitor over serialised proofs and counted digests", ALG, hook="serialisation of proofs (verif-hooks)")
prop("C26", "Inputs that do not fit are refused, never silently truncated",
 "A polynomial larger than the setup, scalars fewer or more than the points, public inputs that do not match the verifying key, and vectors that do not match their keys are refused by an error or a panic on every entry point: no result is computed from part of the data.",
 ["inputs"], "all entry points taking several vectors, all mismatched shapes",
 "No test uses inputs of mismatched size except one commitment length.",
 [PC, PT, SI, GA, G, T, S], [m("capacity checks", PC + " and " + PT + ": commit, open, bivariate_form"), m("length checks", SI + ": prove, verify; " + GA + ": verify_aggregate_proof")],
 "mismatched-shape workload; monitor: refused", ALG)

prop("C27", "Executions have no memory error, no data race, and keep no resources",
 "Whatever the inputs, hostile ones included, and however many threads call the library at once, no execution reads or writes memory out of bounds or after it was freed, reads uninitialised memory, breaks a precondition of unsafe code, or has a data race. What a call took (memory, threads, files) is given back once its results are dropped.",
 ["inputs", "schedules", "histories"], "all inputs, thread counts and concurrent mixes of operations, failing ones included",
 "Tests run each operation once, on honest inputs, without a sanitizer; a memory error or a race need not change the result of one run.",
 [IP, DH + "/lib.rs", G, T, S, PC, PT, GA, SI, SR], [m("data-parallel iterators", IP + ": cfg_multi_pairing; " + G + ": cfg_iter; " + SI + ": par_chunks"), m("hostile proofs", G + ": GIPA::verify; " + SI + ": SIPP::verify")],
 "address, thread and memory sanitizers (whole program with build-std), standard-library precondition checks, live-heap monitor", "Sanitizers judge the executions and interleavings that happened. The repository has no unsafe code today, which the compiler enforces for ark-sipp only.")

def main():
    with open(f"{root}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in log.splitlines() if "verif-hooks:" in l]
    checks, na = [], []
    for p in P:
        if os.path.exists(f"{root}/harness/src/bin/{p['id'].lower()}.rs"):
            checks.append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']}",
                           "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
                           "technique": "runtime monitoring: " + p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "cargo feature verif-hooks (crates ark-ip-proofs and ark-sipp, off by default)",
                     "enable": "the harness crate's path dependencies on ark-ip-proofs and ark-sipp set features = [\"verif-hooks\"]",
                     "source_commits": hooks},
           "checks": checks, "not_applicable": na,
           "notes": "One binary per property in harness/src/bin; see DESIGN.md. Known findings and repaired defects: known_findings.txt."}
    json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1)
    open(f"{root}/MANIFEST.json", "a").write("\n")
main()
