#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROOF = "contract-based deductive verification of the compiled Go code (contracts in govc/specs, verification conditions over go/ssa discharged by an algebraic normaliser and z3), with executable contracts on the real code as counterexample search"
STAND = "bounded stand-in for contract verification: executable contracts checked on the real code against reference values; "
LEVEL = {}
NOTE = {}
def c(ids, level, note):
    for i in ids.split():
        LEVEL[i], NOTE[i] = level, note
G = " Assumes: discrete-log model of the groups of mathlib, SHA-256 and encodings uninterpreted and injective, mathematical integers, goroutines one after another. Rejections of forged proofs are also tried on the real code (bounded)."
c("C08 C09 C10 C11 C12 C19 C20", "proof", "Every function in the property's cone has a contract proved for all inputs and lengths, and the property is a lemma over them." + G)
c("C14 C15 C16", "proof", "Contracts proved for every verifier (exact acceptance condition) and, for C15 and C16, honest acceptance proved as a lemma running the prover's code against the verifier's contract; vector lengths of inner-product arguments are powers of two as the code requires." + G)
c("C18", "proof", "DigitPathLen is proved for every supported fan-out and the two path conversions are proved per fan-out as lemmas on the real functions (fixed length, components below the fan-out, digits of the number, distinct identifiers distinct paths). Assumes: contracts of strconv.ParseUint and big.Int.SetString (a partial function of the string, injective on the identifiers), SHA-256 uninterpreted, termination of the hashing loop not proved. Also tried on the real code (bounded).")
c("C02", "proof", "LiabilityProof.Verify has an exact contract: it accepts iff lengths match, root commitments match, every digest link, the hash-chain aggregation, the sum argument, the equality argument, every range proof and the liability opening hold (paths of length at least 2)." + G)
c("C01", "proof", "Lemma over the code of ProveLiability and Verify, for all fan-outs of at least 3, path lengths of at least 2, node contents, blinding factors and numbers of pairs: the proof for a node path is accepted for the amount in the last node, and none is made where the tree reports absence. Assumes: the nodes along the path are as C06 has them (sums, digests, commitments); the parts are used by what C13, C15 and C16 state about them (a proof made from a witness is accepted for its statement; C13's completeness is bounded); tree lookups as C05 states. The end-to-end property over histories is also tried on the real code (bounded)." + G)
c("C03", "proof", "TotalProof.Verify has an exact contract; a lemma runs ProveTot over an abstract database that holds any root (both layers, cached or not) and the verifier accepts its proof for the root's sum. Assumes: that sum is the sum of all liabilities (C06 along each update)." + G)
c("C04", "proof", "Lemmas: the root-caching store answers as the database does after any earlier request and write; Root returns nothing before the first assignment and afterwards the commitments of the node last written for the root, also if it was handed out before, with the write made by the closure that the tree is given. Histories are also tried on the real code (bounded)." + G)
c("C13 C17 C21", "proof", "Contracts proved for the functions listed in the evidence file; the functions listed there as without contract are covered by the bounded executable contracts only." + G)
c("C06", "proof", "The update of a node (both layers, new and existing nodes, children with and without a digest commitment) is run through the closure that NewVerkleTree installs, over an abstract database; the bytes written are those of the node with the updated child, sum, commitment and digest commitment, for every fan-out, index and set of children." + G + " Assumes: Go map semantics as a partial function with an arbitrary enumeration, the asn1 round trip of byte strings and lists, different keys of the database. The walk of the tree (sparse.Tree.Put) is covered by the bounded executable contracts only.")
c("C07", "proof", "Vertex.Bytes, FromBytes and Digest have contracts; the round trip and the dependence of the digest on the commitments are lemmas over them." + G + " Assumes: the asn1 round trip of byte strings and lists, an arbitrary enumeration order of Go maps. The content of a database after a history is covered by the bounded executable contracts only.")
c("C22", "proof", "Every contract of the verifiers is an exact function of its inputs with an explicit frame; the frames of provers, constructors and commitment functions say that nothing but the listed objects changes; lemmas run every verifier twice on the same inputs and compare result and memory." + G + " Assumes: package variables keep their values, no other goroutine writes the inputs.")
c("C05", "exploration", "Bounded: the whole property is decided by executable contracts (reference value, trapdoor forgeries breaking one equation each) on the cases counted in the evidence file; contracts of functions in its cone that are discharged are listed there too.")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
 "Z01": "Zero knowledge compares probability distributions over the prover's coins for all adversaries; contracts over single runs of the code cannot express it.",
 "Z02": "Computational soundness quantifies over efficient adversaries and is a reduction to a hardness assumption; the exact acceptance conditions and transcript bindings it needs are claimed as C02, C03, C08, C10 to C12, C14 to C17.",
 "Z03": "Schedules: the verifier and the executable contracts run goroutines one after another and cannot decide data races or orderings.",
}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": PROOF if LEVEL[i] == "proof" else STAND + "contracts in govc/specs where they exist",
                 "level": LEVEL[i], "level_note": NOTE[i]} for i in ids if i in LEVEL],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in LEVEL],
     "notes": "No hooks in /repo: harness files are laid over the packages with go's -overlay. Known defects and repairs: known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), len(m["not_applicable"]))
