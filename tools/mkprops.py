#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The single place the properties are edited."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Honest sigma proofs always verify",
  "Whenever the statement is true and the witness is right, proving succeeds and the returned proof verifies against that statement, for the discrete-log (GSPFS), equivalence, consistency, disjunctive (either side), product/zero (ABC, either side) and inequality proofs. "
  "This holds for every integer used as value, key or randomness (zero, negative, larger than the group order, any bit length), for any base points including the identity and points whose coordinates have leading zero bytes, and for any curve and any second generator passed as parameters. "
  "The only exceptions are an ABC or inequality proof with a key that is 0 modulo the group order.",
  ["inputs", "configurations", "histories"], "all true statements and witnesses, all parameter sets, any number of earlier calls",
  "The tests prove a handful of random or fixed values on one curve with one H; boundary residues, short coordinates, identity points and other parameters never occur.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "crypto.go"],
  [("provers and verifiers", "New*Proof and Verify of each proof type")], ["return values of New*Proof and Verify"])

p("C02", "Range proofs cover exactly [0, 2^40)",
  "For every value in [0, 2^40) the range prover returns a proof and a blinding factor such that the proof verifies against the Pedersen commitment of that value under that blinding factor, and that commitment is the aggregate the proof carries. "
  "For every other integer, negative or large, it returns an error and no proof. This holds for any curve and second generator, given the matching table of powers of two.",
  ["inputs", "schedules", "configurations"], "all integers, any scheduling of the prover's and verifier's goroutines, any second generator",
  "The tests prove a few values; 2^40 itself, each single bit position and the low-bit patterns near the boundary are not tried.",
  ["rangeproof.go"], [("bit decomposition and the bound check", "NewRangeProof, proofGenA, proofGenB"), ("aggregation", "RangeProof.Verify")],
  ["NewRangeProof result", "Verify result", "Open of the aggregate"])

p("C03", "False sigma-proof statements are never accepted",
  "Verification of a discrete-log, equivalence, consistency or disjunctive proof returns true only if the challenge is the hash of this exact statement and these exact commitments and every verification equation holds for the proof's members. "
  "A proof that violates any single one of these conditions, however it was made, is refused with a non-nil error, and true is only ever returned together with a nil error.",
  ["inputs", "configurations"], "all proofs and statements, in particular transcripts that satisfy all conditions but one",
  "The tests reject one or two crude forgeries per type; dropping one of the equations, one hashed item or one sign check still passes them.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "crypto.go"],
  [("verification equations and challenge recomputation", "Verify of each type"), ("GenerateChallenge", "crypto.go")], ["Verify result on forged transcripts"])

p("C04", "False product, zero and inequality claims are never accepted",
  "An ABC proof verifies only if its embedded either/or proof is valid for the commitment, its token and the carried product commitment, its challenge is the hash of statement and commitments, and both product equations hold. "
  "Hence no proof convinces the verifier that a commitment opens to a value other than the one it holds, or that two commitments to the same value differ; violating any single condition gives an error.",
  ["inputs", "configurations"], "all ABC and inequality proofs and statements, including ones assembled from parts of valid proofs",
  "The tests try one forged proof and one wrong value; forgeries that satisfy all conditions but one are not tried.",
  ["abc.go", "inequality.go", "disjunctive.go"], [("ABCProof.Verify", "abc.go"), ("InequalityProof.Verify", "inequality.go")],
  ["Verify result on forged proofs"])

p("C05", "Range proofs of anything else are never accepted",
  "A range proof verifies only if every bit commitment it carries is proved to hold 0 or its own power of two, their sum is the carried aggregate, and that aggregate is the commitment being checked. "
  "Changing, swapping, dropping, repeating or adding any entry, the challenge, the aggregate or the commitment makes verification return false with an error.",
  ["inputs", "schedules"], "all range proofs and commitments, every entry position, any scheduling of the verifier's goroutines",
  "The tests verify honest proofs and one wrong commitment; no entry of a proof is ever altered.",
  ["rangeproof.go"], [("ring equation per entry, e0 recomputation and sum check", "RangeProof.Verify, verifyGen")], ["Verify result on altered and forged proofs"])

p("C06", "Provers refuse wrong witnesses",
  "When the witness does not satisfy the statement (wrong scalar, wrong randomness, token under another key, wrong or invalid side, equal values for inequality, out-of-range value), proving returns a non-nil error and never a proof that verifies. "
  "For an ABC or inequality proof whose value the prover cannot check against the commitment, a returned proof must at least fail verification.",
  ["inputs", "configurations"], "all statement/witness pairs that do not match, including ones that match in one of two relations or agree up to sign",
  "The tests cover one mismatch per type; mismatches in only one relation, up to sign, or congruent values are not tried.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go"],
  [("witness checks at the start of each prover", "New*Proof")], ["error returned by New*Proof", "Verify of what it returned"])

p("C07", "A proof is bound to its statement and parameters",
  "A valid proof verifies only for the statement it was made for: replacing, swapping, negating or shifting any point of the statement, exchanging its two halves, or using other generators where the statement involves them makes verification fail. "
  "This also holds between proofs: a proof or part of a proof made for one statement is not accepted for another, and any change to a member of a valid proof other than adding multiples of the group order to a response or partial challenge is refused.",
  ["inputs", "histories"], "all pairs of different statements and all single-member changes of valid proofs",
  "The tests check one wrong statement per type at most.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "crypto.go"],
  [("items hashed into the challenge", "GenerateChallenge calls"), ("verification equations", "Verify")], ["Verify on replayed and altered proofs"])

p("C08", "Proofs use fresh full-range randomness and leak no scalar",
  "Every nonce and blinding factor a prover or commitment uses is drawn afresh and uniformly below the group order from the system's randomness source: never repeated within a proof, across proofs, across calls with the same inputs, or between concurrent calls, and never short. "
  "Every response scalar in a proof is reduced to [0, group order), so its size does not depend on the secret.",
  ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of prover and commitment calls, sequential or concurrent",
  "A reused or biased nonce still gives proofs that verify, which is all that the tests look at.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "crypto.go", "btcec/ciphering.go"],
  [("rand.Int draws", "New*Proof, PedCommit, KeyGen"), ("reduction modulo the order", "response computation")],
  ["members of returned proofs with the witness known", "bytes drawn from the randomness source"])

p("C09", "Proofs do not reveal which side or which bits are proved",
  "The distribution of a disjunctive or ABC proof does not depend on which side the prover knew, and that of a range proof does not depend on the value's bits: no member's size, sign, order, repetition or relation to the other members distinguishes them. "
  "In particular the responses, partial challenges and commitments of both sides, and of 0 and 1 bits, are all independent and uniform over their whole range.",
  ["inputs", "histories"], "all witnesses and sides, over many proofs of the same statement",
  "Tests look only at whether a proof verifies; a proof that gives its side away verifies as well.",
  ["disjunctive.go", "abc.go", "rangeproof.go"], [("mapping of real and simulated side", "NewDisjunctiveProof"), ("bit handling", "proofGenA, proofGenB")],
  ["members of returned proofs"])

p("C10", "Serialized proofs and values survive the round trip",
  "Serializing any proof, point or integer and reading it back yields the same members, the same bytes when serialized again, and the same verification result; reading consumes exactly the bytes written, so several values can be written to one stream. "
  "This holds for integers of either sign up to 1023 bytes and points with coordinates up to 32 bytes, including zero, the identity and coordinates with leading zero bytes.",
  ["inputs"], "all proofs, points with coordinates of at most 32 bytes and integers of at most 1023 bytes",
  "The tests round-trip one random proof per type, whose members practically never have short encodings, zeros or negative numbers.",
  ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "wire/common.go"],
  [("Bytes and New*FromBytes", "each proof file"), ("Read/WriteECPoint, Read/WriteBigInt", "crypto.go")], ["bytes and decoded members"])

p("C11", "Hostile proof bytes and proofs are harmless",
  "Decoding any byte string as any kind of proof, point or integer, and verifying any decoded or hand-made proof (missing members, points off the curve, huge or negative numbers, any number of range entries), returns a result or an error: it never panics, hangs, leaves goroutines behind or allocates memory out of proportion to the input. "
  "A proof cut short at any byte, or with a malformed member (a length not in its shortest form, a coordinate of more than 32 or a number of more than 1024 bytes, a number without its sign byte), is refused when decoded, and a proof or statement with a point that is not on the curve never verifies.",
  ["inputs"], "all byte strings and all proof values",
  "The tests decode only what the library wrote.",
  ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "wire/common.go"],
  [("length limits and error returns when reading", "ReadVarBytes, ReadBigInt, New*FromBytes"), ("input validation in Verify", "each Verify")],
  ["panics, time, goroutine count and allocation of each call"])

p("C12", "Variable-length wire encoding is exact and canonical",
  "Every 64-bit integer and byte string is encoded in the one shortest documented form, whose length is the advertised size, and decodes to itself leaving the rest of the stream untouched. "
  "Non-shortest encodings, truncated input and byte strings longer than the caller's limit are refused with an error, and an error of the underlying reader or writer at any point is returned.",
  ["inputs", "fault_sequences", "schedules"], "all values, limits, streams delivered in any chunks, and read/write failures at every byte, from any number of goroutines",
  "The package has no tests.",
  ["wire/common.go"], [("Read/WriteVarInt, Read/WriteVarBytes, VarIntSerializeSize and the shared buffer list", "wire/common.go")],
  ["bytes written, values read, errors returned"])

p("C13", "Point operations obey the group law",
  "Multiplication, addition, subtraction and negation of points return exactly the result of the elliptic-curve group for every pair of points and every integer scalar, including the identity, equal and opposite points, the generators, negative scalars and scalars beyond the group order. "
  "Two points are reported equal exactly when both coordinates agree, and results depend only on the arguments, not on earlier calls.",
  ["inputs", "histories", "configurations"], "all points, scalars and parameter sets, in any sequence of calls",
  "The tests check a few random operations against each other, not against an independent implementation, and no special cases.",
  ["crypto.go", "btcec/btcec.go"], [("Mult, Add, Sub, Neg, Equal", "crypto.go")], ["returned points"])

p("C14", "Commitments, tokens and keys compute what they claim",
  "A Pedersen commitment is value*G + randomness*H with both reduced modulo the group order, opens with exactly the residues it was made from, and adds homomorphically; a token is randomness*publickey and checks against exactly that; a generated key pair satisfies public = secret*base with a fresh secret. "
  "The default second generator is the point with even y and x = SHA-256 of the base point's x plus 2, so that nobody knows its logarithm, and the table of powers of two is 2^i times the base for i from 0 to 63.",
  ["inputs", "histories", "configurations"], "all values and randomness of any size and sign, all parameter sets",
  "The tests open commitments they made with the same code and never compare with an independent computation.",
  ["crypto.go", "zksigma.go", "btcec/secp256k1H.go"], [("PedCommit, PedCommitR, Open, CommitR, VerifyR, KeyGen", "crypto.go"), ("TestCurve", "zksigma.go")],
  ["returned points and scalars"])

p("C15", "secp256k1 curve arithmetic is correct everywhere",
  "The curve's addition, doubling, scalar multiplication of an arbitrary point and of either built-in generator, on-curve test and non-adjacent-form recoding agree with the mathematical definition for every point on the curve and every byte string as scalar (any length, leading zeros, zero, multiples of the order). "
  "The published curve constants are those of secp256k1, and every entry of both precomputed tables is right.",
  ["inputs", "histories"], "all points on the curve and all scalar byte strings; all 2*32*256 table entries",
  "The package has tests for the field only; multiplication is touched by the proof tests with random scalars.",
  ["btcec/btcec.go", "btcec/precompute.go", "btcec/secp256k1.go", "btcec/secp256k1H.go", "btcec/field.go"],
  [("Add, Double, ScalarMult, ScalarBaseMult, ScalarBaseMultH, NAF, IsOnCurve", "btcec/btcec.go"), ("table loading", "btcec/precompute.go")],
  ["returned coordinates"], state=[("precomputed tables", "multiples of G and H by every byte at every position", "btcec/precompute.go")])

p("C16", "Field arithmetic is exact modulo the prime",
  "Every field operation (set from up to 32 bytes, hex or small integer, normalize, add, subtract via negate, multiply, square, invert, compare, parity, conversion back to bytes) gives the result of integer arithmetic modulo the secp256k1 prime, for every operand and for every sequence of operations that respects the documented magnitude limits. "
  "Normalization yields the unique representative below the prime.",
  ["inputs", "histories"], "all operands and all magnitude-respecting sequences of operations",
  "The tests use a fixed list of vectors; carries and reductions at limb boundaries and in long unnormalized chains are not covered.",
  ["btcec/field.go"], [("fieldVal methods", "btcec/field.go")], ["bytes of the normalized result"],
  hook="in-package test added through go test -overlay")

p("C17", "ECDSA signing, verification and recovery are correct",
  "Signing is deterministic and yields exactly the RFC 6979 (SHA-256) signature with low S, which verifies for its key and (nonempty) hash; verification accepts exactly the (r, s) pairs that satisfy the ECDSA equation with 0 < r, s < order. "
  "A compact signature recovers exactly the signing key and its compression flag, and a compact signature is recovered only to a key for which it verifies. Two signatures are reported equal exactly when both numbers agree.",
  ["inputs"], "all private keys, all nonempty hashes of any length, all candidate signatures",
  "The package has no signature tests.",
  ["btcec/signature.go", "btcec/privkey.go"], [("Sign, Verify, SignCompact, RecoverCompact", "btcec/signature.go, btcec/privkey.go")],
  ["signatures and keys returned"])

p("C18", "Key and signature encodings parse exactly",
  "Public keys in compressed, uncompressed and hybrid form, private keys and DER signatures read back as what was written, and the parsers accept exactly the valid encodings: right length, header and parity, coordinates below the prime and on the curve; r and s positive and below the order and, in strict mode, minimally encoded (bytes behind a signature's stated length are ignored). "
  "Any other byte string gives an error, never a panic. Two keys are reported equal exactly when both coordinates agree.",
  ["inputs"], "all byte strings, all keys and signatures",
  "The package has no parsing tests.",
  ["btcec/pubkey.go", "btcec/signature.go", "btcec/privkey.go"],
  [("ParsePubKey, Serialize*", "btcec/pubkey.go"), ("ParseSignature, ParseDERSignature, Serialize", "btcec/signature.go")], ["parsed values, errors, bytes"])

p("C19", "Encryption to a key is confidential to it and tamper-proof",
  "Whatever is encrypted to a public key decrypts with its private key to exactly the plaintext, of any length, and an unrelated key cannot decrypt it; both parties of a key exchange derive the same secret. "
  "Ciphertexts have the documented layout (IV, ephemeral key, AES-256-CBC data, HMAC over everything before it), readable and writable by an independent implementation of it. "
  "A ciphertext changed, cut or extended in any bit or byte, or of another layout though its MAC is right, is refused with an error and never panics, encrypting twice never gives the same ephemeral key, initialization vector or ciphertext, and the caller's plaintext buffer is left alone.",
  ["inputs", "histories"], "all plaintexts, keys and modifications of ciphertexts",
  "The package has no encryption tests.",
  ["btcec/ciphering.go"], [("Encrypt, Decrypt, GenerateSharedSecret", "btcec/ciphering.go")], ["plaintexts, ciphertexts, errors"])

p("C20", "Concurrent use is race-free and gives the sequential results",
  "Any number of goroutines may prove, verify, commit, serialize, sign, encrypt and do point or wire operations at the same time on shared parameters, proofs and keys, from the very first call on, without data races, deadlocks, leaked goroutines or results that differ from those of sequential calls.",
  ["schedules", "histories"], "all interleavings of concurrent calls, including the first use of the curve",
  "The tests are single-threaded apart from the range proof's own goroutines, and run without the race detector.",
  ["rangeproof.go", "btcec/btcec.go", "wire/common.go", "crypto.go", "zksigma.go"],
  [("goroutines and wait groups of the range proof", "rangeproof.go"), ("one-time initialization of the curve", "S256 in btcec/btcec.go"), ("shared buffer list", "wire/common.go")],
  ["race reports, results, goroutine counts"])

p("C21", "Calls leave their arguments and shared state untouched",
  "No operation changes the integers, points, byte slices, proofs or parameters it is given, nor any shared value such as the identity point, the curve parameters, the generators or the bit-generator table; and what an operation returned is not changed by later operations. "
  "Verification is repeatable: the same proof and statement always give the same answer.",
  ["inputs", "histories"], "all sequences of calls on shared and aliased arguments",
  "The tests use every value once; in-place big-integer arithmetic on an argument goes unnoticed.",
  ["crypto.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "btcec/btcec.go", "btcec/signature.go", "btcec/ciphering.go"],
  [("fresh big.Int results", "all operations")], ["snapshots of arguments and shared state before and after each call"])

p("C22", "Failing randomness or I/O fails the call and nothing else",
  "If the system's randomness source fails at any read during proving or committing, or a reader or writer fails at any byte during encoding or decoding, the operation returns an error and no usable proof, commitment or value: it never panics, hangs, or goes on with missing, partial or predictable randomness. "
  "Later calls with a working source succeed, and short reads are not an error.",
  ["fault_sequences", "inputs"], "every position at which a source, reader or writer can fail, for every operation that returns errors",
  "No test injects a fault.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "crypto.go", "wire/common.go", "btcec/ciphering.go"],
  [("error returns after each draw", "New*Proof, PedCommit"), ("collection of goroutine errors", "rangeproof.go")], ["results under an injected source"])

p("C23", "Proofs interoperate with an independent implementation",
  "For every proof type the library accepts exactly what an independent implementation of the documented protocol (challenge hash over the documented items in order, equations, byte format) produces, and the independent implementation accepts what the library produces. "
  "Challenges, commitments, responses and serialized bytes agree bit for bit when both use the same randomness.",
  ["inputs", "configurations"], "all statements, witnesses and nonces",
  "The tests check the code only against itself, so prover and verifier may drift together.",
  ["gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "inequality.go", "rangeproof.go", "crypto.go"],
  [("GenerateChallenge and its callers", "each proof file"), ("Bytes and New*FromBytes", "each proof file")], ["proof bytes in both directions"])

p("C24", "Ledger-style audits balance for any history",
  "For any history of commitments with tokens under several keys, sums and differences of commitments and tokens (in any order and grouping) open to the sums of values and randomness, prove consistent, and prove their exact total by an equivalence proof with the owner's key; a wrong total, a missing or foreign entry, or another party's key is refused. "
  "Zero totals, negative entries and cancelled entries behave like any others.",
  ["histories", "inputs"], "all histories of transactions, audit points and orders of aggregation",
  "The tests never combine more than one or two commitments.",
  ["crypto.go", "consistency.go", "equivalence.go", "abc.go", "rangeproof.go"],
  [("homomorphic Add/Sub", "crypto.go"), ("proofs over aggregates", "consistency.go, equivalence.go, abc.go")], ["audit verdicts against a shadow ledger"])

p("C25", "Results depend only on the present contents of the arguments",
  "Every operation answers for the values its arguments hold at the time of the call: after the caller overwrites an integer, point, key, signature, proof, parameter set or byte slice it passed before, the same objects give the result for the new contents, and equal contents in other objects give the same result. "
  "Byte slices, integers and freshly computed points an operation returned belong to the caller: later calls do not change them, and the caller may overwrite them, or a buffer after it was parsed, without affecting parsed values or later results.",
  ["histories", "inputs"], "all sequences of calls with the caller's objects overwritten in between",
  "The tests make fresh objects for every call, so anything remembered by address or handed out twice goes unnoticed.",
  ["crypto.go", "zksigma.go", "gspfs.go", "equivalence.go", "consistency.go", "disjunctive.go", "abc.go", "rangeproof.go", "wire/common.go", "btcec/btcec.go", "btcec/privkey.go", "btcec/pubkey.go", "btcec/signature.go", "btcec/ciphering.go"],
  [("no memory between calls", "all operations"), ("copies made by parsers and serializers", "New*FromBytes, Parse*, Bytes, Serialize")], ["results of calls on reused objects"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    import re
    n = len(re.findall(r"[.](\s|$)", x["statement"])); assert n <= 3, (x["id"], n)
print(len(P), "properties")
