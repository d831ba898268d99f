#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

p("C01", "Honestly produced liability proofs verify",
  "For every supported tree type and fan-out, every history of liability assignments and every identifier that has a liability, the proof produced for that identifier verifies against the current root, states the identifier's current liability, and verification returns no error. For an identifier without a liability no proof is produced.",
  ["inputs", "histories", "configurations"], "all fan-outs, identifiers, histories of assignments, blinding factors and challenges",
  "Two tests prove a handful of fixed identifiers on one fan-out each; the random values, path shapes, repeated assignments and other fan-outs are unexplored.",
  ["pol/pol.go", "poe/poe.go", "sum/sa.go", "bp/range.go", "pp/pointproofs.go", "verkle/tree.go"],
  [("proof construction", "pol/pol.go LiabilitySet.ProveLiability"), ("verification", "pol/pol.go LiabilityProof.Verify")],
  observe=["LiabilitySet.ProveLiability", "LiabilityProof.Verify"])
p("C02", "An accepted liability proof is bound to root, identifier and every level",
  "A liability proof is accepted for a published root, an identifier and a stated amount only if it has exactly one commitment and one range proof per level of the identifier's path, its top commitments are the published ones, the hash of the commitments of each lower level is the digest that the aggregated opening certifies at the identifier's position one level up, each level has a valid range proof, the sum argument and the parent-to-child equality argument hold for exactly these commitments and positions, and the stated amount opens the last commitment at the identifier's last position. If any one of these fails, verification returns an error.",
  ["inputs"], "all proofs (also adversarial ones with well-formed components), roots, identifiers, fan-outs",
  "The tests only verify honest proofs, so dropping or mis-wiring a check goes unnoticed.",
  ["pol/pol.go"], [("LiabilityProof.Verify", "pol/pol.go"), ("checkCommitmentToInnerVertex/LeafVertex", "pol/pol.go"), ("hashChainRO", "pol/pol.go")],
  observe=["LiabilityProof.Verify"])
p("C03", "The proof of total liabilities is complete and exact",
  "After any history of assignments the produced total is the sum of all current liabilities and its proof verifies against the current root commitment. Verification accepts a pair of total and opening exactly when the opening equation for the sum position holds for that total as a field element, so no opening is accepted for two different totals, and in particular not for the negation of the committed total.",
  ["inputs", "histories"], "all histories whose total stays below 2^63, all openings and stated totals",
  "One test checks one total; other histories and altered totals (for example negative ones) are not exercised.",
  ["pol/pol.go", "pp/pointproofs.go", "verkle/tree.go"], [("LiabilitySet.ProveTot", "pol/pol.go"), ("TotalProof.Verify", "pol/pol.go")],
  observe=["LiabilitySet.ProveTot", "TotalProof.Verify"])
p("C04", "The published root is always the root of the current tree",
  "At any time after the first assignment, the root commitments handed out are those of the tree's current root, also when the root was handed out before and liabilities were assigned since. Before any assignment no root is handed out.",
  ["histories"], "all interleavings of assignments, root reads, lookups and proofs",
  "No test reads the root, changes the set and reads the root again.",
  ["pol/pol.go"], [("DBMemorizeRoot", "pol/pol.go"), ("LiabilitySet.Root", "pol/pol.go")], state=[("root", "cached serialized root vertex", "pol/pol.go DBMemorizeRoot")],
  observe=["LiabilitySet.Root"])
p("C05", "The liability set is a map from identifiers to the last assigned amount",
  "Looking up an identifier returns the amount most recently assigned to it and reports absence if none was ever assigned; assigning one identifier never changes what any other identifier with a different path returns. Lookups change nothing.",
  ["histories", "inputs"], "all histories of assignments and lookups over all identifiers",
  "Tests assign and look up a few identifiers in a few fixed orders.",
  ["sparse/tree.go", "verkle/tree.go", "pol/pol.go"], [("Tree.Put/Get", "sparse/tree.go"), ("Tree.Put/Get", "verkle/tree.go"), ("LiabilitySet.Set/Get", "pol/pol.go")],
  observe=["LiabilitySet.Get", "sparse.Tree.Get"])
p("C06", "Every stored tree node is consistent after every assignment",
  "After any sequence of assignments, every node on the assigned identifier's path holds the current value (liability or child's sum) and digest of the child that changed and keeps those of the other children, its sum is the sum of its values, its value commitment opens to exactly its values, its sum and its blinding factor in that order, its digest commitment opens to its digests, and the stored bytes are those of that node under its own position. A node's blinding factor never changes.",
  ["histories", "inputs"], "all histories, fan-outs and values",
  "The tests never open a node's commitment after a second assignment below the same node.",
  ["verkle/tree.go", "pp/pointproofs.go"], [("updateInnerLayer", "verkle/tree.go"), ("updateLayerAboveLeaves", "verkle/tree.go"), ("updateSum", "verkle/tree.go")],
  state=[("sum/values/Digests/V/W", "content and commitments of a node", "verkle/tree.go Vertex")], observe=["verkle.Tree.Get"])
p("C07", "Encoding a tree node and decoding it gives back the same node",
  "For every node with in-range values, decoding the bytes produced by encoding it yields a node with the same values at the same positions, the same digests, sum, blinding factor and commitments, whether or not it has a digest commitment, and hence the same digest. The digest of a node depends only on its commitments and changes with each of them.",
  ["inputs"], "all nodes, including empty, partially filled and leaf-level ones",
  "No test decodes an encoded node and compares; positions above 255 and empty maps are not reached.",
  ["verkle/tree.go"], [("Vertex.Bytes", "verkle/tree.go"), ("Vertex.FromBytes", "verkle/tree.go"), ("Vertex.Digest", "verkle/tree.go")],
  observe=["Vertex.Bytes", "Vertex.FromBytes"])
p("C08", "Vector commitment openings are complete and exact at every index",
  "For every vector length, vector and index, opening returns the vector's element at that index and a proof that verifies for the commitment to that vector, that index and that element. Verification accepts element, proof, commitment and index exactly when the opening equation for that index holds, so for one commitment, proof and index at most one element modulo the group order is accepted.",
  ["inputs"], "all lengths N, vectors in the field, indices 0..N-1, trapdoors and proofs",
  "One test opens every index of random vectors of one length with matching elements; boundary scalars and rejection are not quantified over.",
  ["pp/pointproofs.go", "common/math.go"], [("Commit/Open/Verify", "pp/pointproofs.go")], observe=["pp.Open", "pp.Verify"])
p("C09", "Updating one slot of a commitment equals recommitting",
  "Updating a commitment at one index from the old vector to a new element yields exactly the commitment to the vector with that element replaced, for every vector, index and element. Nothing but the commitment changes.",
  ["inputs"], "all vectors, indices, old and new elements including zero",
  "One test updates one random vector at one index.",
  ["pp/pointproofs.go"], [("Update", "pp/pointproofs.go")], observe=["pp.Update"])
p("C10", "Aggregated openings are complete and exact",
  "For any number of commitments, aggregating their individual opening proofs gives a proof that verifies against the correspondingly weighted sum of the opened elements, and verification accepts exactly when the weighted pairing equation over all commitments, indices and weights holds. The weight of each position depends on the public parameters, on every commitment and on the position, and no two positions share a weight by construction.",
  ["inputs"], "all numbers of commitments (also more than 256), indices, vectors, proofs",
  "The test aggregates one small fixed number of proofs and verifies only the honest result.",
  ["pp/pointproofs.go"], [("Aggregate/VerifyAggregation/RO", "pp/pointproofs.go")], observe=["pp.Aggregate", "pp.VerifyAggregation"])
p("C11", "The inner-product argument is complete and verifies the exact equation",
  "For every power-of-two length, generators, vectors a and b, the produced argument verifies for the commitment to a and b and for their inner product. Verification accepts a statement and a proof exactly when folding the generators and the commitment by every round's challenge makes the final one-element equation hold, and rejects a proof with too few rounds.",
  ["inputs"], "all power-of-two lengths, vectors, generators, proofs",
  "One test proves one random instance of one length and never checks a rejection.",
  ["bp/innerprod.go"], [("prove/verify/computeNextParams/computeInstanceSpecificParams", "bp/innerprod.go")], observe=["InnerProductProof.Verify"])
p("C12", "The iterated reduction is complete and verifies the exact equations",
  "For every power-of-two length and every vector with its commitment, the produced reduction is accepted, prover and verifier derive the same challenges, and the final scalar is the vector weighted by the products of challenges selected by the bits of each index. Verification accepts exactly when every round's commitment equation and the final equation hold, and rejects a reduction with too few rounds.",
  ["inputs"], "all power-of-two lengths, vectors, generators, reductions",
  "One test reduces one random vector.",
  ["bp/ir.go"], [("IterativeReduce/IterativeVerify", "bp/ir.go")], observe=["bp.IterativeVerify"])
p("C13", "Range proofs of in-range vectors verify",
  "For every vector whose elements are in [0, 2^63), every blinding factor and every choice of randomness, the produced range proof verifies against the commitment to that vector. The bit expansion used is exactly the binary expansion of each element, of fixed width.",
  ["inputs"], "all power-of-two vector lengths, elements in [0,2^63) including the boundaries, randomness",
  "One test proves one random vector.",
  ["bp/range.go", "common/math.go"], [("ProveRange/VerifyRange", "bp/range.go"), ("Bits", "common/math.go")], observe=["bp.VerifyRange"])
p("C14", "Range-proof verification enforces every equation",
  "A range proof is accepted exactly when the iterated reduction, the inner-product argument over the commitment recomputed by the verifier, and the polynomial equation over the verifier's own challenges all hold; the weights given to bit positions are 2^j times the index weight for j from 0 to 62 and no more. None of the values being checked is taken from the prover where the verifier can compute it.",
  ["inputs"], "all range proofs with well-formed components, commitments, parameters",
  "No test tampers with a range proof.",
  ["bp/range.go"], [("VerifyRange/computeD/computeP/computeZ", "bp/range.go")], observe=["bp.VerifyRange"])
p("C15", "The sum argument is complete and exact, single and aggregated",
  "For every vector whose last element is the sum of the others and every blinding factor, the produced argument verifies against its commitment; for any number of such vectors the aggregated argument verifies against their commitments. Verification accepts exactly when the inner-product argument holds for the statement the verifier computes itself from the commitments, the proof's masking commitment and the challenge, with the fixed coefficients one for every element but the last and minus one for the last.",
  ["inputs"], "all power-of-two lengths, numbers of vectors, vectors, blinding factors, proofs",
  "Tests use one length and honest proofs only.",
  ["sum/sa.go"], [("NewArgument/Proof.Verify/NewAggregatedArgument/VerifyAggregated", "sum/sa.go")], observe=["Proof.Verify", "Proof.VerifyAggregated"])
p("C16", "Opening-equality proofs are complete and exact, single and aggregated",
  "Whenever committed vectors agree at the stated pairs of indices, the produced proof of equality verifies, for one pair and for any power-of-two number of pairs, and for indices anywhere before the blinding slot. Verification accepts exactly when the aggregated pairing equation and, for many pairs, the inner-product argument over the verifier's own statement hold, and rejects a proof made for a different number of pairs.",
  ["inputs"], "all vector lengths, index pairs, vectors, randomness, proofs",
  "Tests use one size and matching vectors only.",
  ["poe/poe.go"], [("Equality/Equalities Prove and Verify", "poe/poe.go")], observe=["Equality.Verify", "Equalities.Verify"])
p("C17", "Every challenge depends on everything sent before it",
  "Each challenge of the non-interactive arguments (opening aggregation, inner product, iterated reduction, range proof, sum argument, equality proof, hash-chain aggregation) is a hash into which every statement element and every earlier prover message that the argument's security needs has been encoded injectively, with distinct encodings for the several challenges drawn at one point. Prover and verifier compute it from the same data.",
  ["inputs"], "all statements and transcripts: changing any one statement element or earlier message changes the hashed bytes",
  "A completeness test passes even when a challenge ignores its inputs altogether.",
  ["bp/innerprod.go", "bp/ir.go", "bp/range.go", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "pol/pol.go"],
  [("computeInstanceSpecificParams, computeNextParams, randomOracle, appendVToChallenge", "bp"), ("rangeProofRO1, computeZ", "bp/range.go"), ("RO", "pp/pointproofs.go"), ("RO, compressParameters", "poe/poe.go"), ("createHVZKChallenge, randomOracleCVW", "sum/sa.go")])
p("C18", "Identifiers map to fixed-length, in-range, distinct paths",
  "For every supported fan-out, every valid decimal identifier maps to a path whose length is the fixed length for that fan-out and whose components are below the fan-out, and distinct decimal identifiers map to distinct paths; malformed decimal identifiers are refused. Every hexadecimal identifier that yields a path yields one of the fixed length with components below the fan-out, and distinct hexadecimal numbers that need no rehashing yield distinct paths; negative ones are refused.",
  ["inputs", "configurations"], "all nine-character strings, all hexadecimal strings, all supported fan-outs (2^k-1, k>=2)",
  "Tests sample some identifiers, none with a short expansion.",
  ["sparse/tree.go"], [("DigitPath/DigitPathLen/HexId2PathForFanOut/convertPathWithFanout", "sparse/tree.go")], observe=["sparse.DigitPath", "sparse.HexId2PathForFanOut"])
p("C19", "Scalar, bit and hash helpers compute what they say",
  "The power-of-two test terminates and is true exactly for the powers of two above one; powers of two, integer embeddings, power series, negation, bit expansions and reversals are exact over the field; converting a 32-byte digest to a scalar is total, deterministic and always below the group order. Generators derived for different contexts or positions hash different strings.",
  ["inputs"], "all inputs of the stated types",
  "One small test checks two of the helpers at single points.",
  ["common/math.go"], [("Pow2, IntToZr, PowerSeries, Bits, ReverseBits, NegZr, FieldElementFromBytes, IsPowerOfTwo, RandGenVec", "common/math.go")])
p("C20", "Vector algebra over scalars and group elements is exact",
  "Element-wise sums, differences, products and negations, scaling, reversal, concatenation, even and odd halves, bit-selected products, inner products, multi-exponentiations, element sums and inner pairing products return exactly the mathematical result for every length and all field values, with mismatched lengths refused where the operation states so. They return fresh results and leave their inputs unchanged.",
  ["inputs"], "all lengths and elements, including zero scalars and identity elements",
  "One test touches a few operations with small vectors.",
  ["common/math.go"], [("methods of Vec, G1v, G2v", "common/math.go")])
p("C21", "Public parameters are well formed",
  "Fresh commitment parameters of size N hold the powers 1..N and N+2..2N of one secret exponent in the first group with the generator in the place of power N+1, the powers 1..N in the second group and power N+1 in the target group, so the one power that would break binding is not given out; the sum and range parameters derived for a fan-out use the same value and blinding generators as the commitments; and each parameter digest covers the generators in use.",
  ["inputs", "configurations"], "all N, secret exponents, fan-outs and tree types",
  "Tests use the parameters but never compare them with their definition.",
  ["pp/pointproofs.go", "pol/pol.go", "sum/sa.go", "bp/range.go", "poe/poe.go"], [("NewPublicParams", "pp/pointproofs.go"), ("GeneratePublicParams", "pol/pol.go")])
p("C22", "Proving and verifying leave their inputs unchanged",
  "Committing, opening, proving and verifying do not modify public parameters, committed vectors, commitments, roots or the shared group constants; a verifier writes only into the proof object it was given, and only values that a repeated verification writes again. Consequently verifying any proof any number of times, in any order, gives the same answer.",
  ["inputs", "histories"], "all calls and orders of calls",
  "Tests call each operation once on fresh inputs; group and scalar operations of the underlying library mutate their receiver in place, so an aliasing slip shows only later.",
  ["common/math.go", "bp", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "pol/pol.go"], [("fresh copies before in-place operations", "common/math.go and all provers and verifiers")])
p("Z01", "Proofs reveal nothing beyond the statement",
  "A liability or total proof reveals nothing about other users' liabilities beyond what the statement implies. This holds for any adversary seeing any number of proofs.",
  ["inputs", "histories"], "all distributions of secrets and adversaries", "Zero knowledge is a statement about distributions, not about single runs.",
  ["pol/pol.go", "bp/range.go", "poe/poe.go", "sum/sa.go"], [("blinding factors", "bp, sum, poe provers")])
p("Z02", "No efficient adversary proves a false statement",
  "No efficient adversary can produce an accepted proof for a false liability, total, range, sum or equality. This includes adversaries that choose the statement adaptively.",
  ["inputs"], "all polynomial-time adversaries", "Computational soundness is a reduction argument, not a property of any tested run.",
  ["bp", "pp/pointproofs.go", "poe/poe.go", "sum/sa.go", "pol/pol.go"], [("commitment binding, Fiat-Shamir", "all verifiers")])
p("Z03", "Parallel proving and verification equal the sequential result",
  "With parallelism enabled, proving and verification give the same outcome as without it, under every schedule. No data race occurs on proof or parameter objects.",
  ["schedules"], "all goroutine schedules", "Tests run a few schedules and not under the race detector.",
  ["pol/pol.go"], [("WaitGroup, Mutex, atomic.Value", "pol/pol.go")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
